#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

MSA = "pallets/msa/src/lib.rs"
CAP = "pallets/capacity/src/lib.rs"
PAY = "pallets/frequency-tx-payment/src/lib.rs"
SCH = "pallets/schemas/src/lib.rs"
MSG = "pallets/messages/src/lib.rs"
SS = "pallets/stateful-storage/src/lib.rs"
TR = "pallets/time-release/src/lib.rs"
HND = "pallets/handles/src/lib.rs"
HU = "pallets/handles/src/handles-utils/src/"
RT = "runtime/frequency/src/lib.rs"

# ---------------------------------------------------------------- handles-utils
prop("C01", "Handle suffixes are handed out as a permutation of the range",
 """For every base handle and every suffix range, the sequence of suffixes generated for that base contains each number
 of the inclusive range exactly once and nothing else. The sequence depends only on the base's canonical form and the
 range, reading the k-th element gives the same value however the sequence is consumed, and the order for a given base and
 range is fixed for all time (stored indices refer to it): a Fisher-Yates shuffle driven by a PCG32 generator seeded with
 XXH64 (seed 0) of the base followed by four zero bytes.""",
 ["inputs"], """Every inclusive suffix range with both ends small plus ranges at the 16-bit edges, for every base handle
 in a finite alphabet including the empty string; every index into the sequence.""",
 """The tests look at a few ranges and one or two base handles; a permutation defect at one offset, an end point or a
 particular seed passes them.""",
 [HU+"suffix.rs"], [("lazy Fisher-Yates shuffle over the range seeded by a hash of the canonical base", HU+"suffix.rs")],
 observe=["suffix iterator returned for (min, max, canonical base)"])
prop("C02", "Display handles split back into exactly the base and suffix they came from",
 """Joining a base handle and a suffix into a display handle and splitting that display handle returns the same base and
 the same suffix. A string that is not a base (without delimiter), exactly one delimiter '.' and a decimal 16-bit number (leading zeros and one plus sign are tolerated) is
 reported as not splittable, never as a wrong pair and never by a crash.""",
 ["inputs"], """Every string up to a small length over an alphabet of letters, digits, signs, the delimiter, and
 multi-byte characters; all 65,536 suffixes for selected bases.""",
 "Tests split two or three hand-written handles; leading zeros, signs, repeated delimiters, overflow and empty parts are not enumerated.",
 [HU+"lib.rs", "common/primitives/src/handles.rs"], [("split on the delimiter and parse the suffix", HU+"lib.rs")],
 observe=["split of a display handle"])
prop("C03", "Only base handles made of permitted characters and words are accepted",
 """The handle validation used for every claim accepts a text only if it contains no blocked character (one of " # % ( ) , . : ; < > @ \\ ` { }), every character lies in one of the published Unicode ranges (full code point, not
 a truncation of it), and it is not one of the reserved words (admin, everyone, all, administrator, mod, moderator, here, channel); and it accepts every text that satisfies these rules.""",
 ["inputs"], """All 1,112,064 Unicode scalar values one at a time and in context positions, and every string up to a small length
 over a class-representative alphabet, and every reserved word with case and one-character variations.""",
 "Tests try a handful of characters; code points above U+FFFF, range end points and each blocked character are not enumerated.",
 [HU+"validator.rs", HU+"lib.rs", "pallets/handles/src/handles-utils/constants/src/lib.rs", "pallets/handles/src/handles-utils/build.rs"],
 [("blocked-character scan, allowed-range scan, reserved-word set", HU+"validator.rs")], observe=["verdict of each validator"])
prop("C04", "Look-alike spellings of a handle share one canonical form",
 """The canonical form of a handle is the same for any two spellings that differ only in ASCII letter case, white space, added
 diacritics (combining marks, composed or not), or replacing a fully decomposed character by one of its published confusables.
 Canonicalisation works character by character: apart from white space and diacritics it never drops, adds or reorders characters, and removing
 diacritics twice changes nothing.""",
 ["inputs"], """All Unicode scalar values singly and in context, every published confusable pair, every string up to a small
 length over an alphabet of letters, accents and confusables.""",
 "Tests use sample strings; a single wrong entry or an order-of-steps change only shows for particular characters.",
 [HU+"converter.rs", HU+"confusables.rs", "pallets/handles/src/handles-utils/build.rs"],
 [("decompose, drop combining marks, map confusables, lower-case", HU+"converter.rs")], observe=["canonical form"])
# ---------------------------------------------------------------- handles pallet
prop("C05", "A handle belongs to one identity and lookups agree in both directions",
 """At every moment each identity holds at most one handle and no two identities hold handles with the same canonical base and
 the same suffix. Looking up an identity gives its display handle, looking up that display handle (or any look-alike spelling) gives that
 identity back, and a retired or never-claimed handle resolves to nobody.""",
 ["histories", "inputs"], """Every sequence of claim, change and retire by up to three identities over bases with colliding
 canonical forms, up to the stated depth, over a small suffix range, at all block heights relevant to expiry.""",
 "Tests run one or two calls on one identity; collisions between look-alike bases after retire/change sequences are not explored.",
 [HND], [("two maps, identity to display name and (canonical base, suffix) to identity, updated together", HND)],
 observe=["handle lookups", "events", "storage"])
prop("C06", "Handle suffixes are never issued twice, and predicted ones are those issued",
 """Within a fixed suffix range a (canonical base, suffix) pair is issued at most once in the whole history, also after the handle is
 retired or changed, and once the range is exhausted claims of that base fail. The next-suffixes query returns exactly the suffixes
 that the next claims of that base will receive, in order.""",
 ["histories"], """Every interleaving of claims, changes and retirements on bases sharing a canonical form until the range is
 exhausted.""",
 "Tests claim once or twice per base; reuse after retirement or skipping in the sequence needs multi-step histories.",
 [HND], [("monotone per-canonical-base cursor into the suffix permutation", HND)], observe=["display names issued", "next-suffixes query"])
prop("C07", "Handles change hands only with the owner's fresh signed request",
 """A handle is claimed or changed only for the identity whose control key signed exactly that base handle with a
 not-yet-passed expiry inside the permitted window, and retired only by a key of its owner after the minimum lifetime, also when the call is made through a proxy, multisig or
derivative account.
 Any rejected request leaves the registry and its cursors untouched, and the validity query agrees with what a claim checks.""",
 ["histories", "inputs"], """Every combination of signer, signed base, signed expiry, submitted base, submitted key, block height and
 prior registry state over small domains.""",
 "Tests cover one mismatch at a time at one block height.",
 [HND], [("payload expiry window check, signature check, owner lookup, retire guard in the transaction extension", HND)],
 observe=["dispatch results", "transaction validity", "storage root before/after"])
# ---------------------------------------------------------------- msa
prop("C08", "Each control key belongs to at most one identity and bookkeeping agrees",
 """At every moment an account is a control key of at most one identity, the number of keys recorded for an identity equals the
 number of accounts that resolve to it and never exceeds the maximum, and an identity that exists has at least one key until it is
 retired. The last remaining key of an identity cannot be removed, no key can remove itself, and a key is removed only by another key of the
same identity, also when the call is made through a proxy, multisig or derivative account.""",
 ["histories"], """Every sequence of create, add key, delete key, sponsored create, retire over up to four accounts up to the
 stated depth.""",
 "Tests check one transition each; consistency across add/delete/retire/re-create histories is not explored.",
 [MSA], [("key to identity map and per-identity counter updated together", MSA)], observe=["key to identity lookup", "storage", "events"])
prop("C09", "Identity numbers are unique, increasing and never reused",
 """Every newly created identity receives a number strictly greater than all earlier ones, also after identities are retired, and creation
 fails rather than wrapping at the end of the number range. Retiring needs a single key, no registration as provider, no active
 delegation and no handle, also when the call is made through a proxy, multisig or derivative account; afterwards the identity has no key and
its number never resolves again.""",
 ["histories"], "Every history of creations, retirements, delegations, and provider registrations up to the stated depth, including counters at the maximum.",
 "Tests retire one identity once.", [MSA], [("monotone identity counter, retire preconditions in the transaction extension", MSA)],
 observe=["created identity numbers", "identity existence", "transaction validity of retire"])
prop("C10", "A signed identity request is honoured at most once",
 """Each signature submitted for a delegation, key addition or sponsored creation is accepted at most once, ever. A request is accepted only
 when its expiry is strictly in the future and within the mortality window, and the registry forgets a signature only after it can no
 longer be accepted; when no expired entry can be evicted the request is refused.""",
 ["histories", "schedules"], """Every sequence of signed submissions (fresh, repeated, near expiry, out of order) interleaved with block
 advances, with registries of one to three entries.""",
 "Replay tests submit once and repeat; eviction order with mixed expiries, full registry and block advance is not enumerated.",
 [MSA, "pallets/msa/src/types.rs"], [("bounded signature list with first/last pointers and eviction of expired entries", MSA)],
 observe=["dispatch result", "signature registry"])
prop("C11", "Delegations and schema grants change only with the delegator's consent",
 """Asked whether a provider may act for a delegator, in general or on a schema, at a block up to the current one, the answer is yes exactly when the delegation
 (and the schema in it) has been granted and its latest grant was not revoked before that block; future blocks are refused. Grants come only
 from the delegator's key or its signature over exactly the granted schema list, only towards a registered provider; until granted again, neither revoking again nor
 changing other schemas moves an earlier revocation.""",
 ["histories"], """Every sequence of grant, schema grant, schema revoke, revocation by either party, re-grant and block advance over two
 providers, two delegators and two schemas; every (delegator, provider, schema, block) question in every state.""",
 "Tests ask one question after one transition; block-relative answers after revoke/re-grant sequences are not explored.",
 [MSA, "pallets/msa/src/types.rs", "common/primitives/src/msa.rs"],
 [("delegation record with revocation block and per-schema revocation blocks", "common/primitives/src/msa.rs")],
 observe=["grant validity at block", "delegation queries", "dispatch results"])
prop("C12", "Fee-free identity calls enter the pool only if they would succeed",
 """A fee-free call (revoking a delegation from either side, deleting a key, retiring an identity) passes transaction validation
 exactly when its preconditions hold (an unrevoked delegation; another key of the same identity; for retiring see C09), and a call that passes then succeeds when run in
 the same state. A rejected one changes nothing. Transaction validation itself never changes state and never rejects calls it does not guard.""",
 ["histories", "inputs"], """All free calls by all accounts in every state reached by identity histories up to the stated depth.""",
 "Tests exercise each rejection once from a hand-built state; agreement between validation and dispatch over all reachable states is not tested.",
 [MSA, HND], [("transaction extension mirroring the dispatch checks", MSA)], observe=["validate result versus dispatch result"])
# ---------------------------------------------------------------- capacity
prop("C13", "Staked, unlocking and frozen tokens always add up",
 """For every account the tokens frozen for staking equal its active stake plus all its not yet withdrawn unlocking amounts, and never exceed what
 it holds. Its active stake equals the sum of what it staked per target, and a target's recorded stake equals the sum over its stakers;
 staking never takes the last minimum token balance.""",
 ["histories"], "Every sequence of stake, unstake, withdraw and block advance by two stakers on two targets with boundary amounts, up to the stated depth.",
 "Tests check single calls; sums over several targets and partial unstakes are where rounding, minimum-stake clean-up and saturation interact.",
 [CAP, "pallets/capacity/src/types.rs"], [("freeze equals active plus unlocking recomputed on each call", CAP)],
 [("staking ledger", "per account", CAP), ("target ledger", "per staker and target", CAP)], ["balances freezes", "staking storage", "events"])
prop("C14", "Capacity issued to a provider matches its stake and spending is bounded by it",
 """A provider's total issued capacity is what staking on it generated minus what unstaking removed, only registered providers receive
 capacity, and the remaining capacity never exceeds the issued total. In one epoch a provider can spend at most what it had issued, a spend larger than
 what remains is refused in full, and capacity refills to the total exactly once per epoch, on first use.""",
 ["histories"], "Every interleaving of staking, unstaking, spending, and epoch change for two providers, amounts at boundaries.",
 "Tests replenish once; spend-unstake-epoch interleavings and saturating arithmetic are not enumerated.",
 [CAP, "pallets/capacity/src/types.rs", "common/primitives/src/capacity.rs"], [("ledger of remaining, total issued and last replenished epoch", "pallets/capacity/src/types.rs")],
 observe=["capacity ledger", "deduct result", "events"])
prop("C15", "Unstaked tokens are released only after the thaw period, exactly once",
 """Tokens from an unstake become withdrawable exactly when the epoch reaches the unstake epoch plus the thaw period, and withdrawing returns all
 matured amounts and only these, exactly once. The number of pending unlocking amounts never exceeds its limit, and epochs advance by one when the epoch's
 length has passed, never backwards; only root can change the epoch length, within its limit.""",
 ["histories"], "Every sequence of unstake, withdraw, block advance and epoch length change up to the stated depth with a small limit of unlocking amounts.",
 "Tests thaw one chunk at a time.", [CAP, "pallets/capacity/src/types.rs"], [("unlock chunk list reaped by epoch; epoch rollover in block initialisation", CAP)],
 observe=["unlock chunks", "withdraw event", "epoch storage"])
# ---------------------------------------------------------------- tx payment
prop("C16", "Capacity pays only for permitted calls of keys that may spend it",
 """A transaction pays with capacity only if it is wrapped as a capacity payment, every wrapped call is on the capacity-eligible list, the signer is a control
 key holding at least the existential deposit, and its identity's (replenished) capacity covers the fee; otherwise it is rejected at validation with no state change.
 On success exactly the capacity fee of the calls' stable weights and the transaction's length is deducted from that identity, once, whether or not the calls succeed and however busy the chain is, and no tokens are taken; the estimate given to users is never below it.""",
 ["histories", "inputs"], "All call shapes (plain, capacity, capacity batch, nested) times signer kinds times capacity/balance levels around the fee, across epochs.",
 "Tests hand-pick levels far from the boundary and do not cross call shapes with signer kinds.",
 [PAY, "pallets/frequency-tx-payment/src/types.rs"], [("fee withdrawal switch on call type and capacity eligibility", PAY)],
 observe=["validate/pre-dispatch result", "capacity ledger", "token balances", "events"])
prop("C17", "Token fees and fee-free calls are charged as declared",
 """An ordinary transaction is charged the token fee computed from its length, weight and tip exactly once whether or not its call succeeds, a call
 declared free pays nothing, and no token-paying transaction touches capacity. The wrapped calls of a capacity transaction run with the signer's own rights
 and a batch is all-or-nothing and limited in length.""",
 ["histories", "inputs"], "All call shapes times success/failure of inner calls times tip values times balances around the fee.",
 "Tests check single happy paths.", [PAY], [("delegation to the token payment path for non-capacity calls; batch_all dispatch", PAY)],
 observe=["balances", "events", "dispatch result"])
prop("C18", "The runtime filters admit only the calls they are meant to",
 """On the public network direct provider and schema creation is blocked wherever the calls appear (batches, proxies, derivative accounts and capacity payments, at any nesting), while every other call is admitted; a batch is admitted only if every call in it is admitted, and batches never contain capacity-payment or fee-free calls. Proxy types only ever permit
 the calls of their category, and passkey transactions only the permitted transfer calls.""",
 ["inputs", "configurations"], "Every call in the runtime call enum at the top level and in every batch shape up to depth two and length two or three; every proxy type times every call; forbidden calls inside every nesting of wrapping calls up to depth four, executed.",
 "Only integration tests on a live chain touch the filters, with a few calls.", [RT], [("base call filter with utility batch inspection; proxy filter; passkey filter", RT)],
 observe=["filter verdict per call"])
prop("C19", "The list of capacity-eligible calls and their weights is exact",
 """Exactly the documented calls (adding a key, sponsored account creation, granting a delegation, adding on-chain or IPFS messages, every user-data storage write, claiming and changing handles)
 are eligible for capacity payment; every other runtime call is not. Each eligible call has a fixed positive stable weight that is monotone in its
 size parameters.""",
 ["inputs", "configurations"], "Every call in the runtime's call enum with boundary argument sizes.",
 "No test enumerates the runtime's calls; a forgotten or extra call is visible only by asking for all of them.", [RT, "pallets/frequency-tx-payment/src/capacity_stable_weights.rs"],
 [("match over eligible calls returning stable weights", RT)], observe=["stable weight per call"])
# ---------------------------------------------------------------- schemas
prop("C20", "Schemas are immutable and numbered consecutively",
 """Every registered schema gets the next number, starting at one, without gaps or reuse, and what a number resolves to (model, type, location and settings) never changes afterwards.
 A failed registration consumes no number, and registration fails, rather than wrapping, once the configured maximum number of schemas or the last number is reached. A schema number counts as valid exactly when it was given out.""",
 ["histories"], "Every sequence of registrations through each entry point (public, governance, proposal) with valid and invalid models up to the stated depth, and counters at the limit.",
 "Tests register once and read back.", [SCH], [("monotone schema counter and write-once maps", SCH)], observe=["schema lookup", "events"])
prop("C21", "Invalid schemas are refused with no effect",
 """A schema is accepted only if its model size lies between the minimum and the current maximum, its model is well-formed for its type, its settings suit its payload location
 (append-only only for itemized), and its settings carry no unknown flag. The maximum size is adjustable only by root and never
 above the fixed limit.""",
 ["inputs", "histories"], "All combinations of model type, location, settings, boundary sizes, callers and malformed models.",
 "Tests try a few combinations.", [SCH, "pallets/schemas/src/types.rs", "common/primitives/src/parquet.rs"], [("validation before insertion", SCH)],
 observe=["dispatch result", "storage before/after"])
prop("C22", "Schema names are well-formed, unique and version consecutively",
 """A schema name is stored only as a lower-cased namespace.descriptor of permitted characters and lengths, and each registration under a name gets the next version number of that name starting
 at one. A schema has at most one name and version for ever, only governance assigns names, and looking up a name or namespace returns exactly its versions in order.""",
 ["histories", "inputs"], "Every string up to a small length over the relevant characters as name; every history of named registrations and naming of existing schemas.",
 "Tests try a list of bad names and one or two versions.", [SCH, "pallets/schemas/src/types.rs"], [("name parsing and per-name version list", "pallets/schemas/src/types.rs")],
 observe=["name lookup", "dispatch result"])
# ---------------------------------------------------------------- messages
prop("C23", "Every accepted message is stored once, in order, and readable for ever",
 """Each accepted message receives the next index within its block, starting at zero in every block, and reading a schema and block returns exactly the accepted messages in
 index order with the submitted content and sender, and these never change later. A rejected message is not stored and consumes no index.""",
 ["histories"], "Every sequence of message submissions of both kinds by several senders on several schemas over several blocks up to the stated depth, including index exhaustion.",
 "Tests add a few messages in one block.", [MSG, "pallets/messages/src/types.rs"], [("per-block index counter reset at block start; keyed by block, schema, provider, index", MSG)],
 observe=["messages by schema and block", "events"])
prop("C24", "Messages are accepted only from entitled senders and in valid form",
 """An on-chain message is accepted only if the sender has an identity, the schema exists and stores on chain, the payload fits, and, when sent on behalf of another identity, that
 identity currently grants the sender that schema. An IPFS message is accepted only with a valid version-1 content identifier for an IPFS schema, and reads back as the same
 identifier.""",
 ["inputs", "histories"], "All combinations of sender, delegator, schema, grant state, payload size, and content identifier forms.",
 "Tests cover single rejections.", [MSG], [("schema location check, grant check, content identifier parsing", MSG)], observe=["dispatch result", "stored message"])
prop("C25", "Paging through messages returns every message exactly once, in order",
 """Following the returned next block and next index with any page size visits every message of the requested block range exactly once in order, and then reports no more.
 Requests with an empty or reversed range, zero or oversized page, or too wide a range are refused, and so is a request over a block that cannot be read.""",
 ["inputs"], "Every distribution of messages over a small number of blocks, every page size, every start block and index.",
 "Tests page through one fixed distribution.", ["common/primitives/src/messages.rs", "pallets/messages/src/rpc/src/lib.rs"],
 [("page assembly and next-cursor computation", "common/primitives/src/messages.rs")], observe=["pages returned by the query"])
# ---------------------------------------------------------------- stateful storage
prop("C26", "User data is written only by its owner or an entitled delegate",
 """User-data pages and items of an identity change only through a call by the owner's key, by a provider holding a current grant for that schema from that identity, or with a valid unexpired signature of
 the owner over exactly that request. Schemas that require signatures accept only signed requests (or the owner's own), append-only schemas never lose items or are deleted, and each schema is written only in its declared layout.""",
 ["histories", "inputs"], "All combinations of caller, owner, grant state, schema layout and settings, operation kind and signature state.",
 "Tests check single combinations.", [SS], [("caller resolution, grant check, schema setting checks, signature check", SS)], observe=["dispatch result", "stored pages"])
prop("C27", "A write with an outdated state hash never takes effect",
 """A write or deletion takes effect only if the state hash it names equals the hash of the page as it is at that moment, and a successful write that leaves data changes the hash
 that later writes must name. Of any two requests prepared against the same state at most one takes effect, and a refused one changes nothing.""",
 ["histories", "schedules"], "Every interleaving of writers preparing against a state and submitting later, over one or two pages.",
 "Tests submit one stale hash.", [SS, "pallets/stateful-storage/src/types.rs"], [("target hash comparison over content and nonce; nonce increment on write", SS)],
 observe=["dispatch result", "page content and hash"])
prop("C28", "Stored user data reads back exactly as the operations imply",
 """Item additions append in order and deletions remove exactly the named positions (named against the list before the request), all or nothing; a page write replaces just that page; limits on item
 size, list size, page size and page number hold. Reading always gives what the operations imply, and stored bytes decode to the same items after any history.""",
 ["histories", "inputs"], "Every action list up to the stated length from every list state up to a small size; every sequence of page writes and deletions over several pages.",
 "Tests apply a few action lists.", [SS, "pallets/stateful-storage/src/types.rs"], [("length-prefixed item encoding rebuilt on each request", "pallets/stateful-storage/src/types.rs")],
 observe=["itemized and paginated queries"])
prop("C29", "User data of different identities, schemas and pages never mix",
 """Data written for one identity, schema, and page is visible only under that key: writing or deleting it never changes the answer for any other key. Enumerating the pages of an identity and
 schema returns exactly the existing pages of that identity and schema.""",
 ["histories", "inputs"], "All pairs of keys over small identities, schemas and pages, including numerically adjacent and byte-prefix-related ones.",
 "Tests use one identity and schema at a time.", ["pallets/stateful-storage/src/stateful_child_tree.rs", SS],
 [("one child trie per identity, keys built from hashed parts with a pallet and layout prefix", "pallets/stateful-storage/src/stateful_child_tree.rs")],
 observe=["paginated query", "child tree reads"])
# ---------------------------------------------------------------- time release
prop("C30", "Scheduled tokens stay frozen until their release block",
 """At every block, after a claim, the tokens frozen for an account by release schedules equal the sum of what its schedules still hold back at that block; without a claim at least that much is frozen. Frozen tokens of pending schedules can never be
 spent by the account, and a schedule with nothing left disappears.""",
 ["histories"], "Every sequence of scheduled transfer, claim, claim for another, schedule replacement and block advance over two or three accounts.",
 "Tests check one schedule at a few blocks.", [TR, "pallets/time-release/src/types.rs"], [("freeze recomputed as the sum over schedules at the current block", TR)],
 observe=["freezes", "spendable balance", "schedules"])
prop("C31", "A release schedule releases everything, in steps, exactly on time",
 """For every schedule the held-back amount never increases over time, equals the whole amount until the first period ends, drops by exactly one period's amount per elapsed
 period, and is zero exactly from the end block on. Arithmetic limits are refused at creation rather than wrapping.""",
 ["inputs"], "All small (start, period, count, amount) schedules at all blocks, plus all combinations of extreme values.",
 "Tests evaluate one or two schedules.", ["pallets/time-release/src/types.rs"], [("closed-form locked amount and end block", "pallets/time-release/src/types.rs")],
 observe=["locked amount at block", "end", "total amount"])
prop("C32", "Scheduled transfers conserve tokens and respect limits",
 """A scheduled transfer moves exactly the schedule's total from sender to recipient and adds exactly that schedule, or it fails with no effect. It is refused below the minimum amount, when the recipient has the maximum number of
 schedules, with a zero period or count, or without sufficient free tokens; only root may replace schedules, only within the account's balance.""",
 ["histories", "inputs"], "All boundary amounts, schedule counts, callers and account combinations (including transfers to oneself).",
 "Tests cover single cases.", [TR], [("validation before transfer; storage transaction around each call", TR)], observe=["balances", "schedules", "dispatch result"])
# ---------------------------------------------------------------- passkey and nonce
prop("C33", "Transaction nonces admit each transaction once and in order",
 """An account's transaction is executable only when its nonce equals the account's current nonce, is held for later when the nonce is higher, is rejected as outdated when lower,
 and executing it raises the nonce by exactly one, so that no signed transaction is ever executed twice. A fee-free transaction never brings a non-existing account into being.""",
 ["histories", "inputs"], "All (account state, transaction nonce) pairs around the current nonce, paying and free calls, and all short sequences.",
 "Tests of the extension exist only as single cases in a live node.", ["runtime/common/src/extensions/check_nonce.rs"], [("nonce comparison and increment", "runtime/common/src/extensions/check_nonce.rs")],
 observe=["validity", "account nonce and providers"])
prop("C34", "A passkey transaction acts only for the account that bound the passkey",
 """A passkey-wrapped call runs only if the named account's signature binds exactly that passkey, the passkey has signed the call, its nonce is the account's current one, the call is of a permitted kind and
 the account can pay the fee; the account is then charged once, the call runs with that account's rights and raises its nonce. Otherwise it is refused with no state change.""",
 ["inputs", "histories"], "All combinations of account, binding signature, nonce, call kind and balance; replays.",
 "Tests check single rejections.", ["pallets/passkey/src/lib.rs", "pallets/passkey/src/types.rs"], [("unsigned validation: ownership proof, nonce and fee checks", "pallets/passkey/src/lib.rs")],
 observe=["validity", "dispatch result", "nonce", "balances"])
# ---------------------------------------------------------------- helpers, node
prop("C35", "Avro helpers accept exactly valid schemas and round-trip data",
 """Schema text is accepted exactly when it is a valid Avro schema, a schema survives translation to and from its stored string form, and a record built from a map of values reads back as the same map.
 Names that are not fields of the schema are ignored. Non-record schemas, missing required fields, values of the wrong type, text that is not UTF-8 and malformed or truncated binary produce an error, never wrong data or a crash.""",
 ["inputs"], "Every schema over a small grammar (all primitive types, records up to two fields, nesting) and every value combination; all single-byte corruptions and truncations of encoded records.",
 "Tests use a handful of schemas and values.", ["common/helpers/src/avro.rs", "common/helpers/src/types.rs"], [("wrappers over the Avro reader and writer", "common/helpers/src/avro.rs")],
 observe=["results of the helper functions"])
prop("C36", "A development node seals blocks exactly as its sealing mode says",
 """In instant sealing every imported transaction leads to a block, interval sealing seals on every tick (only with pending transactions unless empty blocks are enabled), and manual commands seal or finalise exactly
 when asked, in arrival order, one at a time; blocks made automatically are final, and a node that is no authority makes none. The sealing mode, interval and empty-block choice given on the command line are the ones the
node runs with (instant and 12 seconds unless said otherwise, an interval of 0 is refused, the withdrawn flags stop the node), and a mode round-trips with its textual form, in any letter case, and nothing else names one.""",
 ["schedules", "inputs"], "All short interleavings of ticks, transactions and manual commands for each mode; every mode spelling.",
 "No unit test drives the sealing loop.", ["node/service/src/block_sealing.rs", "node/cli-opt/src/lib.rs", "node/cli/src/cli.rs", "node/cli/src/run_as_localchain.rs"], [("merged command stream with a pool check", "node/service/src/block_sealing.rs")],
 observe=["commands sent to the sealing engine", "text form of modes"])
prop("C37", "Off-chain key index converges to the on-chain key set",
 """After the off-chain worker has processed blocks in order, its index of identity to control keys equals the on-chain key set as of the last processed block, whatever keys were added and deleted in between, also when a
 block is processed twice or several blocks are processed late, when a worker was stopped half-way or overlapped another, and when a block was abandoned for another before it was final; only while the worker has not yet
 passed the block whose state its initial index was taken from may a key already be as of a later block. A run that nothing hinders processes everything final, never more and never back; without an answer about finality
it changes nothing.""",
 ["histories", "schedules", "crash_points"], "Every sequence of key events over several blocks, with worker runs missing, repeated, delayed, stopped at any access or overlapping.",
 "Tests process one event.", ["pallets/msa/src/offchain_storage.rs", "common/primitives/src/offchain.rs"], [("indexed events replayed by the worker under a lock; initial index from storage", "pallets/msa/src/offchain_storage.rs")],
 observe=["off-chain index content"])
prop("C38", "Query interfaces report chain state faithfully",
 """Node query endpoints return what the runtime answers at the best block (or the block asked for), complete and in request order, and turn every runtime error and invalid request into an error rather than a
 wrong or partial answer (only a delegation check that fails counts as "not delegated", and an over-long handle as invalid). The missing-nonce query lists exactly the gaps before an account's waiting transactions.
 Events, byte strings and records keep their content when encoded for clients, and the public chains are recognised by their genesis hash only.""",
 ["inputs"], "All small requests (empty, single, several, duplicates, limits) times all runtime answers including errors.",
 "RPC tests use mock answers for single requests.", ["pallets/msa/src/rpc/src/lib.rs", "pallets/messages/src/rpc/src/lib.rs", "pallets/schemas/src/rpc/src/lib.rs", "pallets/handles/src/rpc/src/lib.rs", "pallets/stateful-storage/src/rpc/src/lib.rs", "pallets/frequency-tx-payment/src/rpc/src/lib.rs", "node/service/src/rpc/frequency_rpc.rs", "common/primitives/src/rpc.rs", "common/primitives/src/utils.rs", "common/helpers/src/rpc.rs"],
 [("result mapping and request validation", "common/helpers/src/rpc.rs")], observe=["RPC results"])
prop("C39", "Storage migrations preserve content and run once",
 """Each storage migration carries every existing record over with its meaning unchanged, moves the version forward, and does nothing when run again or on already migrated data. In particular a migrated token lock keeps exactly what
 was still locked, and only the known schemas of the main net are renamed, on the main net only.""",
 ["histories", "configurations"], "Every small pre-migration storage content, each migration run zero, one and two times.",
 "Tests migrate one fixed data set.", ["pallets/messages/src/migration/v2.rs", "pallets/schemas/src/migration/v4.rs", "pallets/time-release/src/migration/v2.rs", "runtime/frequency/src/lib.rs"],
 [("version-guarded translation of storage", "pallets/messages/src/migration/v2.rs")], observe=["storage before/after"])

prop("C40", "Governed actions need the approval they require",
 """Whoever may take an action that the chain reserves to its council, technical committee or root takes it, and nobody else: for every governed call of the runtime the set of authorities that may make it (root, a share of a council of a size,
 a signed account) is the configured one. A signed account alone, however it wraps the call (batch, proxy, derivative, multisig, a motion of its own), never achieves a governed effect; a motion takes effect only after
as many current members have approved it as it requires, each counted once, and only once.""",
 ["inputs", "histories", "configurations"], "Every governed call times every authority (all councils up to a size, all yes counts); all short histories of proposing, voting, closing and membership changes.",
 "Tests in the pallets use mock origins; the runtime's own wiring of origins is not tested.", ["runtime/frequency/src/lib.rs", "runtime/common/src/constants.rs", "runtime/common/src/proxy.rs", "runtime/common/src/extensions/check_nonce.rs", "pallets/msa/src/lib.rs", "pallets/schemas/src/lib.rs", "pallets/capacity/src/lib.rs", "pallets/time-release/src/lib.rs", "pallets/passkey/src/lib.rs"],
 [("origins configured per pallet in the runtime", "runtime/frequency/src/lib.rs")], observe=["dispatch results", "storage after a motion"])
prop("C41", "The runtime's queries agree with what the chain did",
 """In every reachable state the answers of the runtime's query interfaces (delegation, grants and their validity at a block, provider and key lookups, handles in both directions and next suffixes, messages by schema and blocks,
 pages and lists, schemas and versions, fee and capacity quotes) are those that follow from the transactions executed so far. A capacity quote is never below what the transaction is then charged and its parts add up; transactions
that cannot be paid so have none. The events asked for of a block are those of this repository's pallets, each once, in order, with its position and content.""",
 ["histories", "inputs"], "All short histories of real transactions through the runtime with every query asked in every state; every call shape's quote against the actual charge; every event list of short blocks.",
 "The runtime's query implementations (impl_runtime_apis) have no unit tests.", ["runtime/frequency/src/lib.rs", "pallets/frequency-tx-payment/src/lib.rs", "pallets/msa/src/lib.rs", "pallets/handles/src/lib.rs", "pallets/messages/src/lib.rs", "pallets/schemas/src/lib.rs", "pallets/stateful-storage/src/lib.rs", "common/primitives/src/rpc.rs"],
 [("impl_runtime_apis of the runtime", "runtime/frequency/src/lib.rs")], observe=["results of runtime queries"])

prop("C42", "The events of a transaction tell exactly what it did",
 """Every transaction that succeeds deposits exactly the events of this repository's pallets that describe what it changed, and one that fails, or changes nothing that is announced, deposits none of them.
Identities, keys, owners, delegator and provider, handles, schema numbers and names, storage locations with the content hash before and after, targets and accounts are the ones concerned, and amounts (tokens staked, unstaked
or withdrawn, capacity given, taken or spent, tokens released by a claim) are the ones by which the state really changed, not those asked for. Messages are announced once per block, with its first message.""",
 ["histories"], "All short histories of real transactions through the runtime (identities and keys, capacity, token releases, delegations, handles, lists and pages, schemas, messages, passkey calls); the events of every transaction are compared with the change between the state before and after.",
 "Indexers and applications follow the chain by its events alone; unit tests assert single events of single calls.", ["pallets/msa/src/lib.rs", "pallets/capacity/src/lib.rs", "pallets/time-release/src/lib.rs", "pallets/handles/src/lib.rs", "pallets/messages/src/lib.rs", "pallets/schemas/src/lib.rs", "pallets/stateful-storage/src/lib.rs", "pallets/passkey/src/lib.rs"],
 [("Event of every pallet", "pallets/*/src/lib.rs")], observe=["events of each transaction", "state before and after"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

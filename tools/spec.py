NA = []
COMMON = "Exploration, not proof: holds on every generated case of the run. Trusted: the reference implementation in harness/ref, Go's standard library, btcec and go-owcrypt (a dependency outside the repository)."

prop("A01", "Address encoding matches every network's published format and round-trips",
 "For every supported address or key-export type and every payload of that type's length, encoding yields exactly the string the network's published format defines (version bytes, checksum, alphabet, padding), and decoding that string returns the payload. When a public key is supplied instead of its hash, the address encodes the network's key hash of that key. Encoding and decoding never modify the caller's data and repeat identically.",
 "all payloads of the published length, all public keys, all published address types",
 "The unit tests pin one or two addresses for some of the types; leading zero bytes, 32-byte witness programs and most types are not sampled.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/encoderProfile.go", "addressEncoder/base58.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eip55/eip55.go", "addressEncoder/eos.go", "addressEncoder/aeternity.go"],
 [("AddressEncode / AddressDecode", "addressEncoder/addressEncoder.go"), ("address type table", "addressEncoder/encoderProfile.go")],
 "addr", "a case is one (address type, payload or public key) drawn over all types with zero-biased payloads; every case is non-trivial, distinct by (type, payload)", COMMON, scale=5)

prop("A02", "Corrupted, foreign or non-canonical addresses are never decoded",
 "A string that is not a valid address of the requested type - any changed, swapped, missing or added character that breaks the checksum, another network's version or human-readable part, another witness version, a wrong payload length, non-zero padding, or a different checksum algorithm - is reported as an error and yields no payload. Every string that the published format accepts is decoded to its payload.",
 "all strings near valid addresses, and all well-checksummed strings of a wrong type, length, version or padding",
 "The unit tests decode valid addresses only.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eos.go", "addressEncoder/aeternity.go", "addressEncoder/eip55/eip55.go"],
 [("AddressDecode", "addressEncoder/addressEncoder.go"), ("checksum verification", "addressEncoder/addressEncoder.go")],
 "addr", "a case corrupts a valid address (substitute, swap, insert, delete, case) or forges a correctly checksummed string of a wrong type; non-trivial when the reference decoder rejects the string; distinct by (type, string)", COMMON, scale=6)

prop("A03", "The address validity check agrees with each coin's address formats",
 "For every coin symbol the validity check covers, it answers yes exactly for the strings that are valid addresses in one of that coin's formats (main and test networks it lists) and no, with an error, for every other string. It answers for every string, including empty and very short ones.",
 "all strings, all supported symbols",
 "The unit tests check a few valid addresses per symbol.",
 ["addressEncoder/addressCheck.go"], [("AddressCheck", "addressEncoder/addressCheck.go")],
 "addr", "a case is (symbol, string) with strings valid for the symbol, valid for another coin, corrupted or forged; all cases count; distinct by (symbol, string)", COMMON, scale=6)

prop("A04", "Address and encoding decoders never crash on any input",
 "Decoding or validating any string under any supported address type, alphabet, checksum kind or coin symbol returns a result or an error and never panics, whatever the string's length and content. Encoding any byte string under a supported type also never panics.",
 "all strings and byte strings", "Unit tests only pass well-formed strings.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/addressCheck.go", "addressEncoder/base58.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go"],
 [("AddressDecode", "addressEncoder/addressEncoder.go"), ("AddressCheck", "addressEncoder/addressCheck.go")],
 "addr", "a case is one string (arbitrary, truncated, mutated or correctly checksummed short payload) run through every decoder; all cases count; distinct by string", COMMON, scale=5,
 technique="fuzzing with structured generators: crash-freedom of every decoder and validator")

prop("H01", "Embedded hash and text-encoding primitives equal their standards",
 "The BLAKE-224/256 digests (also salted, double and incremental), CRC-32 and base-64 codec the library carries compute exactly what their specifications define for every input length and for every way of splitting the input into writes. Reading a digest does not disturb an ongoing computation and resetting starts afresh.",
 "all messages, all write schedules", "No unit test exercises chunked writes, salts, padding boundaries or base-64.",
 ["addressEncoder/blake256/blake256.go", "addressEncoder/blake256/blake256block.go", "addressEncoder/crc32.go", "addressEncoder/base64.go"],
 [("blake256 digest", "addressEncoder/blake256/blake256.go"), ("CRC32", "addressEncoder/crc32.go"), ("base64 Encoding", "addressEncoder/base64.go")],
 "addr", "a case is a message with a drawn split into writes, lengths biased to the padding boundaries; all cases count; distinct by (message, split)", COMMON, scale=6, over=("inputs", "histories"))

prop("K01", "Child key derivation follows the BIP32 / curve-specific definition",
 "For every supported curve, parent key, chain code and index, the derived private child, its public key, chain code, parent fingerprint, depth and index equal the published hierarchical derivation (HMAC-SHA512 with the curve's key rules), with private keys always at their full fixed length. Deriving the public child of a parent's public key gives the public key of the same private child; hardened public derivation, derivation below depth 255 and deriving a private child from a public key are refused. Derivation never changes the parent key.",
 "all seeds, curves, indices and derivation histories",
 "The unit tests derive a handful of fixed chains; keys with leading zero bytes, depth limits, and curves other than secp256k1 are not sampled.",
 ["owkeychain/extendedkey.go"], [("GenPrivateChild", "owkeychain/extendedkey.go"), ("GenPublicChild", "owkeychain/extendedkey.go"), ("InitRootKeyFromSeed", "owkeychain/extendedkey.go")],
 "key", "a case is (curve, parent, index) or a sequence of derivations compared step by step with a big-integer reference model; non-trivial when a child is derived and compared; distinct by (curve, parent, index)", COMMON, scale=2, over=("inputs", "histories"))

prop("K02", "Derivation paths and coin accounts reach exactly the addressed key",
 "Deriving along a path string gives the same key as deriving its elements one by one (hardened where marked), for private and for public derivation and for every registered coin type, whose private and public routes agree. Malformed paths, indices outside the 31-bit range, unknown curves and seeds of a bad length are refused with an error.",
 "all seeds, all path strings, all coin types and indices",
 "The unit tests use a few well-formed paths.",
 ["owkeychain/hdkey.go", "owkeychain/hdprofile.go"], [("DerivedPrivateKeyWithPath", "owkeychain/hdkey.go"), ("DerivedPublicKeyFromPath", "owkeychain/hdkey.go")],
 "key", "a case is (seed, curve, path) or (seed, coin, index) or a malformed path; all cases count; distinct by their inputs", COMMON, scale=4)

prop("K03", "Exported keys re-import to the same key and corrupted exports are refused",
 "Exporting any extended key and importing the text gives back every attribute (curve, depth, fingerprint, index, chain code, key and public/private kind). A text with a changed character, a wrong prefix, a wrong length or a bad checksum is refused with an error and never crashes; the same holds for the base58check helper and for multisig key shares.",
 "all extended keys, all texts near or unlike a valid export",
 "The unit tests re-import two or three fixed keys.",
 ["owkeychain/owencode.go", "owkeychain/multisig.go", "owkeychain/base58.go"], [("OWEncode / OWDecode", "owkeychain/owencode.go"), ("Base58checkDecode", "owkeychain/owencode.go"), ("ChainDecode", "owkeychain/multisig.go")],
 "key", "a case is one extended key exported and re-imported, or one mutated or forged text; all cases count; distinct by text", COMMON, scale=3)

BF = ["btc", "hc", "omni", "cxc", "zencash", "bitcoincash", "bitcoinsv"]
def bfiles(*names): return ["%sTransaction/%s" % (d, n) for d in BF for n in names]
BNOTE = COMMON + " Seven Bitcoin-style drivers: btc, hc, omni, cxc, zencash, bitcoincash, bitcoinsv."

prop("B01", "Unsigned Bitcoin-style transactions pay exactly what was requested",
 "In every Bitcoin-style driver (bitcoin and the forks, hc, omni, cxc, zencash, bitcoin cash, bitcoin sv), building an unsigned transaction yields byte for byte the network serialisation of exactly the requested inputs, outputs (in order, amounts, lock script of each address), lock time and replaceability sequence, for any number of inputs and outputs. A request that cannot be met as written - an invalid or foreign-network address, a malformed transaction id, no input or no output - is refused with an error and never turned into another payment.",
 "all input and output lists, addresses, amounts, lock times, networks",
 "The unit tests build a handful of fixed transactions with a few inputs; counts above 252, witness outputs, wrong addresses are not sampled.",
 bfiles("transaction.go", "txStruct.go", "txOut.go", "txIn.go"), [("CreateEmptyRawTransaction", "btcTransaction/transaction.go"), ("output scripts", "btcTransaction/txOut.go"), ("inputs", "btcTransaction/txIn.go")],
 "btcfam", "a case is one (driver, network, inputs, outputs, lock time) request compared with a reference serialisation, or one damaged request; refused-request cases count only when the reference says the request is invalid; distinct by request", BNOTE, scale=4)

prop("B02", "Signing digests of Bitcoin-style transactions follow the network rules",
 "For every transaction and every mix of supported spent outputs (public key hash, nested and native witness key hash, script-hash and witness-script multisig), the digest reported for each input is exactly the one the network's rules define (original algorithm, the witness algorithm, or the replay-protected one of the cash forks), together with the address or the key list and signature count that must sign it. Missing, surplus or malformed unlocking data, unsupported signature types and truncated transactions are refused with an error.",
 "all transactions, all mixes of input kinds, amounts, hash types",
 "The unit tests check a few digests only indirectly.",
 bfiles("txHash.go", "txStruct.go"), [("CreateRawTransactionHashForSig", "btcTransaction/transaction.go"), ("getHashesForSig", "btcTransaction/txHash.go")],
 "btcfam", "a case is one transaction with 1 to 5 inputs of drawn kinds; every input's digest is compared with the reference; distinct by (driver, transaction, unlock data)", BNOTE, scale=4)

prop("B03", "Inserting signatures gives the exact valid network transaction",
 "Inserting the signatures made for the reported digests - by the library's signer or an external one, with any r and s values, by any sufficient set of multisig key holders - yields byte for byte the signed transaction the network accepts (strict DER, push encodings, witness items), which verification then accepts; if any signature is not valid, verification of the result says so. When signatures, keys or unlocking data are missing or misshapen, an error is returned and no transaction.",
 "all transactions, input kinds, keys, signature values, signer subsets",
 "The unit tests sign a few fixed transactions with 2-of-3 keys; short r or s values and other multisig sizes are not sampled.",
 bfiles("transaction.go", "SignaturePubkey.go", "txMultiSig.go", "txStruct.go"), [("InsertSignatureIntoEmptyTransaction", "btcTransaction/transaction.go"), ("SignaturePubkey", "btcTransaction/SignaturePubkey.go"), ("multisig scripts", "btcTransaction/txMultiSig.go")],
 "btcfam", "a case is one transaction signed with drawn keys and signatures and compared with the reference's signed form, or one incomplete set; all cases count; distinct by result", BNOTE, shards=8, scale=1.5)

prop("B04", "Verification never accepts an invalid Bitcoin-style transaction",
 "Verification accepts a signed transaction only if every input is validly signed for exactly this transaction: any change to an input, output, amount, sequence, version, lock time, hash type, signature, public key or to the spent output's data, a signature by another key, repeated, reordered or missing multisig signatures, or a signature encoding that is not strict DER makes it answer no. Two acceptances that existing tests rely on are listed as known findings.",
 "all signed transactions and all changes to them",
 "The unit tests verify only valid transactions.",
 bfiles("transaction.go", "SignaturePubkey.go", "txMultiSig.go"), [("VerifyRawTransaction", "btcTransaction/transaction.go"), ("signature decoding", "btcTransaction/SignaturePubkey.go")],
 "btcfam", "a case is a validly signed transaction with one tampering; non-trivial when the reference consensus evaluation rejects it; distinct by (bytes, unlock data)", BNOTE, shards=8, scale=2)

prop("B05", "Multisig addresses commit to exactly the given keys and threshold",
 "Creating an m-of-n multisig gives the redeem script with exactly those keys in that order and that threshold, and the script-hash address (plain or witness-nested) of exactly that script on the requested network; outputs paid to it can be spent by any m of the key holders. Thresholds of zero or above the number of keys, more than 16 keys, keys of a wrong length and oversized scripts are refused.",
 "all thresholds, key lists, networks and signer subsets",
 "The unit tests create one 2-of-3 address per driver.",
 bfiles("txMultiSig.go"), [("CreateMultiSig", "btcTransaction/txMultiSig.go")],
 "btcfam", "a case is one (threshold, keys, network, witness switch) or one create-pay-spend history; valid requests and histories count as non-trivial; distinct by redeem script or spend", BNOTE, over=("inputs", "histories"))

prop("B06", "Token payload transactions carry exactly the requested payload",
 "An Omni-layer transaction (omni, bitcoin cash and bitcoin sv drivers) carries one zero-value data output whose content is exactly the protocol's encoding of the requested operation, correctly pushed at any length, next to exactly the requested outputs. A cxc asset transfer carries per recipient the asset reference and quantity attached to that recipient's lock script, followed by the change output. Unknown operations, bad addresses and malformed asset references are refused.",
 "all operations, property ids, amounts, memos, addresses, asset references",
 "The unit tests build one or two payloads.",
 ["omniTransaction/txOmni.go", "omniTransaction/txPayload.go", "bitcoincashTransaction/txPayload.go", "bitcoinsvTransaction/txPayload.go", "bitcoincashTransaction/txOmni.go", "bitcoinsvTransaction/txOmni.go", "cxcTransaction/txAsset.go"],
 [("getPayload", "omniTransaction/txOmni.go"), ("asset outputs", "cxcTransaction/txAsset.go")],
 "btcfam", "a case is one payload or asset request compared byte for byte with the reference; all cases count; distinct by request", COMMON)

prop("B07", "Decoding Bitcoin-style transactions is faithful and never crashes",
 "Decoding any transaction the library builds or signs reports its version, lock time, inputs (id, index, kind), outputs and witness flag exactly, repeats identically and leaves the caller's bytes alone; a truncated or extended transaction is refused. Whatever bytes, unlocking data, signatures or keys are supplied, decoding, digest calculation, signing, insertion and verification return a result or an error and never crash.",
 "all byte strings, unlock data, signatures and keys",
 "The unit tests decode valid transactions only.",
 bfiles("txStruct.go", "txMultiSig.go", "txIn.go", "SignaturePubkey.go"), [("DecodeRawTransaction", "btcTransaction/txStruct.go")],
 "btcfam", "a case is one transaction decoded and compared plus truncations, or one mutated transaction with mutated unlock data through every entry point; all cases count; distinct by bytes and data", BNOTE,
 technique="property-based testing and structured fuzzing: differential decode oracle, truncation oracle and crash-freedom", shards=8)

def tfiles(d, *names): return ["%sTransaction/%s" % (d, n) for n in names]

prop("T01", "Vollar, verge and aliencoin transactions are exact, bound and verified",
 "Creating a transaction gives byte for byte the network form of exactly the requested inputs, outputs, lock time and time stamp, and for every input the digest the network signs; requests with a bad address, transaction id or lock script, or without inputs or outputs, are refused. Combining returns the exact signed transaction (minimal DER, any r and s) when every signature is valid for its digest and key, and no transaction when anything signed, a signature or a key was changed or is missing; no input makes these functions crash.",
 "all input/output lists, amounts, scripts, keys, signatures and tamperings",
 "The unit tests build one fixed transaction per driver.",
 [f for d in ("vollar", "verge", "aliencoin") for f in tfiles(d, "transaction.go", "txStruct.go", "txIn.go", "txOut.go", "txSigPub.go")],
 [("CreateEmptyRawTransactionAndHash", "vollarTransaction/transaction.go"), ("CreateEmptyTransactionAndHash", "vergeTransaction/transaction.go"), ("VerifyAndCombineTransaction", "aliencoinTransaction/transaction.go")],
 "t01", "a case is one request compared with the reference, one signed and combined transaction, or one tampering; refused/tampered cases count when the reference says they are invalid; distinct by request and signatures", COMMON)

prop("T02", "Hypercash transactions are exact, bound and verified",
 "Creating a plain or omni transaction gives byte for byte the network form of exactly the requested inputs, outputs, token payload, lock time and expiry, and for every input the digest the network signs; the inputs can be listed back, and requests with a bad address, transaction id or lock script, or without inputs or outputs, are refused. Combining returns the exact signed transaction (minimal DER, any r and s) when every signature is valid for its digest and key, and no transaction when anything signed, a signature or a key was changed or is missing; no input makes these functions crash.",
 "all input/output lists, amounts, trees, scripts, keys, signatures and tamperings",
 "The unit tests build four fixed transactions.",
 tfiles("hypercash", "transaction.go", "TxStruct.go", "txIn.go", "txOut.go", "txOmni.go", "txSignature.go", "base58.go"),
 [("CreateEmptyTransactionAndHash", "hypercashTransaction/transaction.go"), ("VerifyAndCombineTransaction", "hypercashTransaction/transaction.go"), ("GetVinList", "hypercashTransaction/TxStruct.go")],
 "t02", "a case is one request compared with the reference, one signed and combined transaction, or one tampering; refused/tampered cases count when the reference says they are invalid; distinct by request and signatures", COMMON)

TRULE = "a case is one request compared with the reference, one signed and combined transaction, or one tampering; refused/tampered cases count when the reference says they are invalid; distinct by request and signatures"

prop("T03", "Elastos transactions are exact, bound and verified",
 "Creating a transaction gives byte for byte the network form of exactly the requested inputs and outputs and, once per distinct sender, the digest the network signs; requests with a bad address, transaction id or asset id, or without inputs or outputs, are refused. Combining returns the exact signed transaction when every signature is valid for the digest and its key, and no transaction when anything in it, a signature or a key was changed or there is no signature at all; no input makes these functions crash.",
 "all input/output lists, amounts, assets, keys, signatures and tamperings",
 "The unit tests build two fixed transactions.",
 tfiles("elastos", "transaction.go", "txStruct.go", "txIn.go", "txOut.go", "txSignature.go", "txUtils.go", "base58.go"),
 [("CreateEmptyRawTransactionAndHash", "elastosTransaction/transaction.go"), ("VerifyAndCombineRawTransaction", "elastosTransaction/transaction.go"), ("GetProgramHashFromAddress", "elastosTransaction/base58.go")],
 "t03", TRULE, COMMON)

prop("T04", "Fiii transactions are exact, bound and verified",
 "Creating a transaction gives exactly the requested version, times, inputs and outputs and, for every input, the message that names its previous output; requests with an address of another prefix, checksum or length, a bad transaction id or output index, an amount that is not positive, or without inputs or outputs, are refused. Combining returns that transaction with the exact unlock scripts, hash and size when every signature is valid for its input's message and key, and no transaction when a previous output, a signature or a key was changed or is missing; no input makes these functions crash.",
 "all input/output lists, prefixes, amounts, keys, signatures and tamperings",
 "The unit test builds one fixed transaction.",
 tfiles("fiii", "transaction.go", "txStruct.go", "txInput.go", "txOutput.go", "txUnlock.go", "base58.go"),
 [("CreateEmptyTransactionAndMessage", "fiiiTransaction/transaction.go"), ("VerifyAndCombineTransaction", "fiiiTransaction/transaction.go"), ("Complete", "fiiiTransaction/txStruct.go")],
 "t04", TRULE, COMMON)

prop("T05", "Metaverse transactions are read, signed and combined exactly",
 "Reading a node's unsigned transaction lists exactly its inputs in order and, given their lock scripts (standard, attenuation or raw hexadecimal), yields for every input exactly the digest the network signs; transactions that are cut, of another version, already signed or without inputs, other lock scripts and inputs of another transaction are refused. Combining returns that transaction with the exact unlock scripts (minimal DER, any r and s) when every signature is valid for its digest and key, and nothing when the transaction, an input, a lock script, a signature or a key was changed or is missing; no input makes these functions crash.",
 "all unsigned transactions, lock scripts, keys, signatures and tamperings",
 "The unit tests sign four fixed transactions.",
 tfiles("mateverse", "transaction.go", "txIn.go", "txSigPub.go", "txUtils.go"),
 [("GetInputsFromEmptyRawTransaction", "mateverseTransaction/transaction.go"), ("GetSigHash", "mateverseTransaction/transaction.go"), ("VerifyAndCombineTransaction", "mateverseTransaction/transaction.go")],
 "t05", TRULE, COMMON)

prop("T06", "Bytom transactions are exact, bound and verified",
 "Creating a transaction gives byte for byte the network form of exactly the requested inputs, outputs and time range (any amount and position below 2^63) and, for every input, the digest the network signs; bad or foreign-network addresses, bad identifiers or control programs, missing inputs or outputs, and impossible multisig scripts are refused. Inserting the signatures of single-key and m-of-n inputs gives the exact signed transaction, which verifies exactly when every input carries valid signatures of distinct required keys of its own script in order; a changed, moved, missing or repeated signature, script or field is never accepted, and no input makes these functions crash.",
 "all input/output lists, amounts, control programs, m-of-n scripts, keys, signatures and tamperings",
 "The unit tests build three fixed transactions.",
 tfiles("bytom", "transaction.go", "txStruct.go", "txIn.go", "txOut.go", "txHash.go", "txMultiSig.go", "sigPub.go", "bech32.go", "txUtil.go"),
 [("CreateEmptyRawTransaction", "bytomTransaction/transaction.go"), ("CreateRawTransactionHashForSig", "bytomTransaction/transaction.go"), ("InsertSignatureIntoEmptyTransaction", "bytomTransaction/transaction.go"), ("VerifyRawTransaction", "bytomTransaction/transaction.go")],
 "t06", TRULE, COMMON)

prop("T07", "Cosmos and Evaio transactions are signed, verified and sent as requested",
 "For any chain, memo, account, sequence, gas, fee and messages, the text to sign is exactly the canonical JSON of the request (fee coins of amount zero left out, the caller's fee untouched) and the digest its SHA-256; the send form carries exactly the same messages, fee, memo, key and signature. A signature verifies exactly when it is valid for the unchanged text under the key; bech32 addresses of any payload encode and decode losslessly and text with a wrong checksum or padding is refused; no input makes these functions crash.",
 "all texts (any characters), amounts, coin lists, keys, signatures, tamperings and payload sizes up to 40 bytes",
 "The unit tests build one fixed transaction per chain and decode one address.",
 [f for d in ("cosmos", "evaio") for f in tfiles(d, "transaction.go", "txStruct.go", "txSend.go", "fee.go", "coin.go", "message.go", "bech32.go")],
 [("CreateEmptyTransactionAndHash", "cosmosTransaction/transaction.go"), ("VerifyTransactionSig", "cosmosTransaction/transaction.go"), ("CreateJsonForSend", "evaioTransaction/transaction.go"), ("Bech32Decode", "cosmosTransaction/bech32.go")],
 "t07", TRULE, COMMON)

prop("T08", "Binance Chain transfers are exact, bound and verified",
 "Creating a transfer gives exactly the canonical text and SHA-256 digest the network signs for the requested sender, receiver, coin, numbers and memo; addresses of another prefix, checksum or length and amounts that are not positive or cannot be written exactly are refused. Combining returns exactly the network's binary transaction for that request and key when the signature is valid for the digest, and no transaction when the request, the signature or the key was changed; no input makes these functions crash.",
 "all addresses, coins, amounts, numbers, memos (any characters), keys, signatures and tamperings",
 "The unit tests combine one fixed transaction and decode one.",
 ["binancechainTransaction/" + f for f in ("transaction.go", "msg-send.go", "utils.go")],
 [("CreateEmptyTransactionAndHash", "binancechainTransaction/transaction.go"), ("VerifyAndCombineRawTransaction", "binancechainTransaction/transaction.go"), ("CreateSendMsg", "binancechainTransaction/msg-send.go")],
 "t08", TRULE, COMMON)

prop("T09", "Ripple payments are exact, bound and verified",
 "Creating a payment gives exactly the ledger's binary form of the requested sender, key, receiver, tag, amounts, sequence numbers and memo (of any length), with one marked place for the signature, and the digest the network signs; bad addresses or keys, zero amounts and values that do not fit their fields are refused. Combining returns exactly the signed transaction (minimal DER) when the signature is valid for the digest under the transaction's own key, and no transaction when anything, the place included, was changed; no input makes these functions crash.",
 "all addresses, amounts, tags, sequence numbers, memos up to 20000 bytes, keys, signatures and tamperings",
 "The unit test builds one fixed payment with a short memo.",
 tfiles("ripple", "transaction.go", "txStruct.go", "txUtils.go", "txEnc.go", "txProfile.go", "base58.go"),
 [("CreateEmptyRawTransactionAndHash", "rippleTransaction/transaction.go"), ("VerifyAndCombinRawTransaction", "rippleTransaction/transaction.go"), ("NewTxStruct", "rippleTransaction/txStruct.go")],
 "t09", TRULE, COMMON)

prop("T10", "MOAC transfers are exact, bound and verified",
 "Creating a transfer gives exactly the canonical RLP form of the requested receiver, nonce, amount, gas price, gas limit and network, and its Keccak digest; bad addresses and negative or more than 256-bit numbers are refused. Combining returns exactly the signed transaction with the right recovery value when the signature recovers to the given key and the network is the transaction's own, and no transaction when anything was changed; no input makes these functions crash.",
 "all receivers, nonces, amounts, gas values, networks, keys, signatures and tamperings",
 "The unit test builds one fixed transfer.",
 tfiles("moacchain", "transaction.go", "txStruct.go", "txUtils.go", "txProfile.go"),
 [("CreateEmptyRawTransactionAndHash", "moacchainTransaction/transaction.go"), ("VerifyAndCombineRawTransaction", "moacchainTransaction/transaction.go"), ("NewTxStruct", "moacchainTransaction/txStruct.go")],
 "t10", TRULE, COMMON)

prop("T11", "Polkadot and Kusama transfers are exact, bound and verified",
 "Creating a transfer gives exactly the payload the network signs for the requested call, receiver, amount, nonce, tip, block, versions and genesis - compact numbers of every size up to 2^64-1 and the 64-block era of the given height - and an unsigned form that states the same request; keys or hashes of another length, call codes that are no hexadecimal text, and a zero amount or height are refused. Combining returns exactly the signed extrinsic when the signature is valid for that payload under the request's own sender key, and no transaction when the request, the call code or the signature was changed; no input makes these functions crash.",
 "all keys, hashes, call codes, amounts, nonces, tips, heights, versions, signatures and tamperings",
 "The unit tests build two fixed transfers and a few compact numbers.",
 tfiles("polkadot", "transaction.go", "txStruct.go", "txPayLoad.go", "txMethod.go", "txEra.go", "codec.go"),
 [("CreateEmptyTransactionAndMessage", "polkadotTransaction/txStruct.go"), ("VerifyAndCombineTransaction", "polkadotTransaction/transaction.go"), ("Encode", "polkadotTransaction/codec.go")],
 "t11", TRULE, COMMON)

prop("T12", "BigBang transactions are exact, bound and verified",
 "Creating a transaction gives byte for byte the network form of exactly the requested inputs (any number), receiver, amount, fee, lock height, anchor and data (any length) with the current time, and its BLAKE2b digest; addresses of another prefix, length, alphabet or checksum, transaction ids or anchors of another length, a zero amount or fee, and requests without inputs are refused. Combining returns that transaction followed by the signature when the signature is valid for the digest under the key, and no transaction when the transaction, the signature or the key was changed; no input makes these functions crash.",
 "all input lists, receivers, amounts, data up to 65536 bytes, keys, signatures and tamperings",
 "The unit test builds one fixed transaction.",
 tfiles("bigbang", "transaction.go", "txStruct.go", "txIn.go", "txUtils.go", "address.go", "crc24.go"),
 [("CreateEmptyTransactionAndHash", "bigbangTransaction/transaction.go"), ("VerifyAndCombineTransaction", "bigbangTransaction/transaction.go"), ("NewTxStruct", "bigbangTransaction/txStruct.go")],
 "t12", TRULE, COMMON)

prop("T13", "Filenet transfers are exact, bound and verified",
 "Creating a transfer gives the network form of exactly the requested sender and payments, in the order of their addresses, with their number, their total and the current time, and its SHA-256 digest, and leaves the caller's list alone; bad addresses, zero amounts, totals of 2^64 and more and requests without payments are refused. Combining returns the node's JSON form of exactly that transfer, digest and signature when the signature is valid for the digest under the key, and no transaction when the transfer, the signature or the key was changed; no input makes these functions crash.",
 "all senders, payment lists (with repeated addresses), amounts, keys, signatures and tamperings",
 "The unit test builds one fixed transfer.",
 tfiles("filenet", "transaction.go", "txStruct.go", "txTo.go", "txUtils.go", "address.go"),
 [("CreateEmptyTransactionAndHash", "filenetTransaction/transaction.go"), ("VerifyAndCombineTransaction", "filenetTransaction/transaction.go"), ("NewTxStruct", "filenetTransaction/txStruct.go")],
 "t13", TRULE, COMMON)

prop("T14", "Ontology transfers and withdrawals are exact, bound and verified",
 "Creating an ONT or ONG transfer or an ONG withdrawal, in either version of the call, gives byte for byte the network's transaction that invokes exactly the requested payment (any amount up to 255 bits), gas price, limit and payer with a fresh nonce, its digest, and the addresses that must sign; bad addresses, unknown assets and missing, negative or larger amounts are refused. Combining returns exactly the signed transaction, which reads back to what was put in, when each of 1 to 16 signatures is valid for the digest under its key, and no transaction when it was already signed or when the transaction, a signature or a key was changed or is missing; no input makes these functions crash.",
 "all addresses, assets, amounts, gas values, payers, key lists, signatures and tamperings",
 "The unit tests build a few fixed transfers.",
 tfiles("ontology", "transaction.go", "txStruct.go", "txInvokeCode.go", "txHash.go", "txSigData.go", "txSigPub.go", "txUtils.go", "base58.go"),
 [("CreateRawTransactionAndHash", "ontologyTransaction/transaction.go"), ("VerifyAndCombineRawTransaction", "ontologyTransaction/transaction.go"), ("DecodeRawTransaction", "ontologyTransaction/txStruct.go")],
 "t14", TRULE, COMMON)

prop("T15", "VSYS payments are exact, bound and verified",
 "Creating a payment gives byte for byte the network form of exactly the requested receiver, amount, fee and fee scale with the current time, and reading it gives the request back; bad addresses, other transaction types and attachments, which are not supported, are refused. A signature verifies exactly when it is valid for the unchanged payment under the key; the JSON form that is sent states exactly the payment, key and signature and is refused for bytes that are no payment; no input makes these functions crash.",
 "all receivers, amounts, fees, keys, signatures, tamperings and byte strings",
 "The unit test builds one fixed payment.",
 tfiles("virtualeconomy", "transaction.go", "txDecode.go", "txProfile.go", "base58.go"),
 [("CreateEmptyTransaction", "virtualeconomyTransaction/transaction.go"), ("CreateJSONRawForSendTransaction", "virtualeconomyTransaction/transaction.go"), ("TxStructDecode", "virtualeconomyTransaction/txDecode.go")],
 "t15", TRULE, COMMON)

prop("T16", "WaykiChain transactions are exact, bound and verified",
 "Creating a transfer, a token transfer, an account registration or a contract call gives byte for byte the network form of exactly the requested accounts, receiver, coin, call data (any length), amount, fee and height, and the digest the network signs; bad addresses, account numbers that are malformed or out of range, negative numbers, public keys of another length, empty coin names and unknown types are refused. Combining returns that transaction followed by the signature in minimal DER (any r and s) when the signature is valid for the digest under the key, and no transaction when the transaction, the signature or the key was changed; no input makes these functions crash.",
 "all transaction types, accounts, amounts, call data up to 65536 bytes, keys, signatures and tamperings",
 "The unit tests build one fixed transaction per type.",
 tfiles("waykichain", "transaction.go", "txStruct.go", "txSignature.go", "txUtils.go", "base58.go"),
 [("CreateEmptyRawTransactionAndHash", "waykichainTransaction/transaction.go"), ("VerifyAndCombineRawTransaction", "waykichainTransaction/transaction.go"), ("int64ToUvarint", "waykichainTransaction/txUtils.go")],
 "t16", TRULE, COMMON)

prop("B08", "The generic Bitcoin test-network driver is exact, bound and verified",
 "Creating a transaction gives byte for byte the network form of exactly the requested inputs, outputs (key hash, script hash and witness addresses of the test network), lock time and replaceability, and its digests, the transaction with inserted signatures (key hash, nested and native witness inputs in any mix, or a single witness m-of-n input with its own multisig address) and the one-call signing follow the network rules; requests, scripts and signature sets that do not fit are refused. Verification accepts a signed transaction exactly when every input is validly signed for it by the key its lock script names: any change to the transaction, a signature, key, script or spent amount is rejected. These functions leave the caller's data alone, give the same answer when repeated, and never crash.",
 "all input/output lists, addresses, amounts, scripts, keys, m-of-n lists, signatures and tamperings",
 "The unit tests build a few fixed transactions.",
 ["btcLikeTxDriver/" + n for n in ("transaction.go", "txStruct.go", "txIn.go", "txOut.go", "witness.go", "signaturepubkey.go", "multiSig.go", "bech32.go", "base58.go", "utils.go")],
 [("CreateEmptyRawTransaction", "btcLikeTxDriver/transaction.go"), ("InsertSignatureIntoEmptyTransaction", "btcLikeTxDriver/transaction.go"), ("VerifyRawTransaction", "btcLikeTxDriver/transaction.go"), ("DecodeRawTransaction", "btcLikeTxDriver/txStruct.go"), ("CreateMultiSig", "btcLikeTxDriver/multiSig.go")],
 "b08", TRULE, COMMON)

SG = ["aliencoin", "bigbang", "binancechain", "bitcoincash", "bitcoinsv", "btc", "bytom", "cosmos", "cxc", "elastos", "evaio", "fiii", "filenet", "hc", "hypercash", "mateverse", "moacchain", "omni", "ontology", "polkadot", "ripple", "verge", "virtualeconomy", "vollar", "waykichain", "zencash"]
prop("S01", "Every driver's signer yields valid canonical signatures or an error",
 "In all 27 transaction drivers, signing a digest (or message) with any usable private key gives a signature of full fixed length that is valid for exactly that digest under that key's public key - with low s on secp256k1, and with the matching recovery id or public key where one is returned - and two digests are never signed with the same nonce. Digests and keys of a wrong length, text that is not hexadecimal, and keys outside the group's range are refused with an error and never crash; the caller's key is not changed.",
 "all private keys, digests, messages and entropy",
 "The unit tests sign a few fixed digests with one key and seldom verify the result independently.",
 ["%sTransaction/transaction.go" % d for d in SG] + ["btcLikeTxDriver/transaction.go", "btcLikeTxDriver/signaturepubkey.go"],
 [("SignRawTransactionHash", "btcTransaction/transaction.go"), ("serilizeS", "btcTransaction/SignaturePubkey.go"), ("SignRawTransaction", "moacchainTransaction/transaction.go"), ("SignTransaction", "polkadotTransaction/transaction.go")],
 "s01", "a case is (driver, key, digest, entropy) signed twice with different digests and checked by an independent verifier, or one unusable key or digest; all cases count; distinct by (driver, key, digest)", COMMON)

prop("C01", "Every driver's Base58 and Base58Check codec is the published one",
 "In every driver package and in the key package, Base58 encoding of any bytes under any 58-character alphabet gives the published text (one leading character per leading zero byte) and decoding gives exactly the bytes back, while text with a character outside the alphabet is refused. The checked form carries the network's version bytes, hash and four-byte checksum, re-reads to the same version and hash, and is refused when the checksum, the algorithm or the length is wrong. No codec crashes or changes its caller's memory.",
 "all byte strings, alphabets, version bytes, hashes and texts",
 "The unit tests print a couple of addresses; leading zeros, foreign alphabets, damaged and short texts are not sampled.",
 ['aliencoinTransaction/base58.go', 'bitcoincashTransaction/base58.go', 'bitcoinsvTransaction/base58.go', 'btcTransaction/base58.go', 'cxcTransaction/base58.go', 'elastosTransaction/base58.go', 'fiiiTransaction/base58.go', 'filenetTransaction/base58.go', 'hcTransaction/base58.go', 'hypercashTransaction/base58.go', 'omniTransaction/base58.go', 'ontologyTransaction/base58.go', 'rippleTransaction/base58.go', 'vergeTransaction/base58.go', 'virtualeconomyTransaction/base58.go', 'vollarTransaction/base58.go', 'waykichainTransaction/base58.go', 'zencashTransaction/base58.go', 'btcLikeTxDriver/base58.go', 'owkeychain/base58.go'],
 [("Encode / Decode", "btcTransaction/base58.go"), ("EncodeCheck / DecodeCheck", "btcTransaction/base58.go"), ("DecodeCheck", "waykichainTransaction/base58.go")],
 "codec", "a case is (driver codec, alphabet, bytes), (codec, text near or outside the alphabet) or (codec, version, hash, damage) compared with a big-integer reference; all cases count; distinct by those inputs", COMMON, history=0.12)

prop("C02", "Bech32, bech32m, bit regrouping and compact integers equal their standards",
 "The bech32 helpers of the drivers, the generic bech32 and bech32m codecs, the regrouping between eight- and five-bit groups, and the compact integer encoding give exactly the text or bytes their specifications define and decode back to the same data. A string with a wrong checksum constant, mixed case, a changed character, non-zero or superfluous padding or a wrong program length is refused with an error. No codec crashes or changes its caller's memory.",
 "all prefixes, data, group strings, texts and integers",
 "The unit tests encode one or two fixed addresses and never decode damaged ones.",
 ['btcTransaction/bech32.go', 'hcTransaction/bech32.go', 'cxcTransaction/bech32.go', 'zencashTransaction/bech32.go', 'omniTransaction/bech32.go', 'cosmosTransaction/bech32.go', 'evaioTransaction/bech32.go', 'bytomTransaction/bech32.go', 'btcLikeTxDriver/bech32.go', 'addressEncoder/bech32m/bech32m.go', 'polkadotTransaction/codec.go'],
 [("Bech32Encode / Bech32Decode", "btcTransaction/bech32.go"), ("Bech32Encode / ConvertBits", "bytomTransaction/bech32.go"), ("Encode / Decode / Convertbits", "addressEncoder/bech32m/bech32m.go")],
 "codec", "a case is (codec, prefix, data) with a damaged or forged variant, a bit string regrouped, or an integer, compared with the reference; all cases count; distinct by those inputs", COMMON, history=0.12)

prop("X01", "Calls never influence each other, in any order or at the same time",
 "Every operation of every package - address codecs, hashes, key derivation, transaction building, signing, combining, verifying and text codecs - gives its own correct result, determined by its arguments alone, whatever calls were made before it and whatever other calls goroutines of the same process are making at the same moment. No two calls race on shared memory, as long as the callers themselves share none that they write to.",
 "all mixes of calls from many goroutines, with all their inputs, and all schedules the runtime produces",
 "The unit tests make one call at a time, so shared buffers, caches, package variables that hold state and other hidden coupling never show.",
 ["addressEncoder/addressEncoder.go", "owkeychain/extendedkey.go", "btcTransaction/transaction.go", "bitcoincashTransaction/transaction.go", "polkadotTransaction/transaction.go", "elastosTransaction/transaction.go", "ontologyTransaction/transaction.go", "waykichainTransaction/transaction.go", "btcLikeTxDriver/transaction.go"],
 [("AddressEncode / AddressDecode", "addressEncoder/addressEncoder.go"), ("CreateEmptyRawTransaction", "btcTransaction/transaction.go"), ("package-level variables", "btcTransaction/txProfile.go")],
 "addr b08 btcfam codec key s01 t01 t02 t03 t04 t05 t06 t07 t08 t09 t10 t11 t12 t13 t14 t15 t16",
 "a case is one generated case of any other property, with that property's own oracle, executed in one of three goroutines per property while all properties of the package run in parallel under the race detector, or as one step of a history of five related cases in one process (repeats and variations of earlier steps); non-trivial by that property's rule; distinct by that case's inputs", 
 COMMON + " Built with the race detector; schedules are the ones the Go runtime produces, not enumerated.", over=("inputs", "histories", "schedules"), shards=1, scale=0.03, thorough=8, race=True, weights={"btcfam": 0.4}, history=4,
 technique="property-based testing: all generators and oracles of the other properties run concurrently under the race detector and in generated histories of repeated and varied calls")

T.update({
 "C01": "runtime monitor: online comparison of every encoding route with an independent CESR reference codec under boundary and random workloads, plus crash capture",
 "C02": "runtime monitor: stream consumer driven over random concatenations in both domains, compared item by item with the recorded stream",
 "C03": "runtime monitor: independent reference codec over all indices of every indexed code, both domains",
 "C04": "runtime monitor: independent reference codec over all small counts, boundaries and versions",
 "C05": "runtime monitor: re-encoding oracle and reference acceptor over mutations of valid encodings",
 "C06": "runtime monitor: panic, overflow, abort and hang capture over hostile inputs, with all accessors driven",
 "C08": "runtime monitor: code-by-type-by-route matrix compared with an ownership table",
 "C09": "runtime monitor: every signature cross-checked by an independent implementation of the suite and by the library's own verification",
 "C10": "runtime monitor: tampering workload (every single-bit change, malleability, foreign keys, malformed lengths) with acceptance compared to an independent verifier",
 "C11": "runtime monitor: index and code oracle over boundary indices of every signing suite",
 "C12": "runtime monitor: digests compared with published vectors and independent implementations; comparison matrix over algorithms and contents",
 "C13": "runtime monitor: derivation compared with an independent serializer and digester over generated documents",
 "C14": "runtime monitor: mutation workload over self-addressed documents, every accepted mutation judged against the re-derived digest",
 "C15": "runtime monitor: reference prefix derivation over generated and mutated inception events",
 "C16": "runtime monitor: satisfaction compared with exact integer arithmetic, all subsets for small thresholds",
 "C17": "runtime monitor: all threshold forms cross-built and compared; malformed expression workload",
})
NOTES = {}
NA = {}
T.update({
 "C18": "runtime monitor: every stretched seed compared with an independent Argon2id call at the tier's parameters; signer sequences compared item by item; temporary and tiered costs",
 "C19": "runtime monitor: history checker over thousands of freshly generated secrets on many threads and processes (repeats, constant bytes, bit frequency), each rebuilt and used at once",
 "C25": "runtime monitor: independent reference encoding of Base64 text compared over all routes, all short texts enumerated, foreign characters injected",
 "C26": "runtime monitor: independent integer and code oracle over width boundaries, random values and malformed hexadecimal on every route",
 "C27": "runtime monitor: reference translation of generated datetimes over every route, malformed texts, and default instants compared with the system clock",
 "C29": "runtime monitor: instrumented global allocator scanning every released block for the secret bytes while secrets are built, used and dropped",
})
T.update({
 "C20": "runtime monitor: reference serialization compared with every event field and byte over random events and trailing data; refusal matrix; randomly altered bytes judged against themselves",
 "C21": "runtime monitor: accessors of generated key events compared with the generator's own record; malformed-field workload with absence-or-error oracle",
 "C22": "runtime monitor: credentials compared with the generator's fields in both directions; refusal matrix and altered bytes",
 "C23": "runtime monitor: documents compared node by node after conversion and respelling; edit histories checked step by step against a model",
 "C24": "runtime monitor: reference path walk, comparison, strip and root over generated documents and related path pairs",
 "C28": "runtime monitor: reference layout and parser over all versions and size boundaries, mutated strings, version strings at every offset, and sized documents",
})
T.update({
 "C07": "runtime monitor: panic, overflow, abort and hang capture over arbitrary bytes, wrecked documents, thresholds, values and paths, with every accessor of what is accepted driven",
})
T.update({
 "C30": "ThreadSanitizer, AddressSanitizer and (thorough) Miri over the library's own code with a rebuilt standard library, plus a purity monitor comparing every operation's result alone, repeated, reordered, under contention, with preemption injected at arbitrary instructions, stepped instruction by instruction, and held after each write to static memory",
 "C31": "runtime monitor: every binding operation run on the host against stand-ins of the JavaScript engine and compared with the core operation on the same input",
})

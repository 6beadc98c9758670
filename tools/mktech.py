import json
EX = "Held on the executions counted in the evidence, nothing more. Trusts the oracle in the harness and, for generated text, the generator's statement of what it denotes."
mon = lambda s: {"technique": "runtime monitoring: " + s, "note": EX}
T = {
"C01": mon("real CLI runs under injected schedule perturbation, compared with the sequential run; hang detection by thread state"),
"C02": mon("ThreadSanitizer, AddressSanitizer and Miri over multi-threaded parsing, pooling and learning, in process and through the real CLI"),
"C03": mon("recycled vs fresh containers in lock step; unique tokens through a multi-threaded pool"),
"C04": mon("model and feature snapshots around every prediction"),
"C05": mon("lock-step twins in process; command-line runs with and without predictions"),
"C06": mon("lock-step of original and reloaded model"),
"C07": mon("lock-step of original and imported model, weight listing monitor; export and import by the real CLI"),
"C08": mon("executable reference model of the update (f32 and f64)"),
"C09": mon("range and finiteness monitor over extreme values"),
"C10": mon("metamorphic lock-step on explicit expansion"),
"C11": mon("reference estimator over a directly driven regressor"),
"C12": mon("distribution monitor and exact reference of the mixing"),
"C13": mon("f64 reference of each policy"),
"C14": mon("generated text with an independent hash oracle"),
"C15": mon("generated JSON with an independent hash oracle"),
"C16": mon("generated DsJson with an independent hash oracle"),
"C17": mon("cross-format differential"),
"C18": mon("fragmenting, interrupting readers; exactly-once, in-order stream oracle"),
"C19": mon("acceptance table over generated configurations"),
"C20": mon("published schemas judged against the observed acceptance of generated configurations, by loader and CLI"),
"C21": mon("offline recomputation of metric values, in process and of the progress tables of real CLI runs"),
"C22": mon("staged real CLI runs compared byte for byte with the single run"),
"C23": mon("metamorphic lock-step on explicit products"),
"C24": mon("hostile input campaign with panic, crash, hang and state monitors, in process and on the real CLI"),
"C25": mon("numeric derivative and gradient-flow oracles"),
"C26": mon("re-hashing monitor on extracted names"),
"C27": mon("lock-step with and without wrappers"),
"C28": mon("call histories recorded from the core library repeated through the Python package, single- and multi-threaded"),
"C29": mon("random operation histories against a model container and against a container without a past"),
"C30": mon("byte-counting allocator and CPU clock around blocks of examples; peak memory, CPU time and data taken of real runs"),
"C31": mon("random histories of writes, copies and loads against a model table; walks over tables of unique values"),
}
json.dump(T, open("/verif/tools/techniques.json", "w"), indent=1)

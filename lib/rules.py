"""How the in-process monitor (harness/, crate vmon) makes and judges its cases."""
RULES = {
"C03": "Case: a random history of examples parsed, trained on, dropped and returned to one pool versus the same text parsed with fresh containers, in all formats; plus tokens handed out by a pool to many threads. Non-trivial: the recycled container held other namespaces or features before. Distinct by text history.",
"C04": "Case: a random stack, history of training, and interleaved predictions (repeated, on values up to the limits of f32). Judged: model bytes and features before and after predicting, twin that never predicts. Distinct by history.",
"C05": "Case: random stack and history driven in lock step by predict_then_learn and by predict plus learn. Judged: predictions bit for bit, model bytes. Distinct by history.",
"C06": "Case: random stack and history, saved and loaded at random points; the loaded copies are driven on. Judged: predictions bit for bit, model bytes. Distinct by configuration.",
"C07": "Case: random stack and history (moderate values, tiny values, zero weights), exported to JSON text and imported at random points. Judged: export succeeds, re-export equal, predictions bit for bit, weight listing against the features that learned. Distinct by configuration.",
"C08": "Case: random sequence of weighted examples to the regressor; after each, predictions on random and on single-index features are compared with f32 and f64 references of the coin-betting update. Ill-conditioned histories are dropped and counted. Distinct by history.",
"C09": "Case: random histories with tiny and with extreme features, labels and weights. Judged: every reported prediction finite and in the label range seen (or [0,1] with the logistic link). Distinct by history.",
"C10": "Case: random namespaces and random pairs/triples; a model with interactions and one without on the oracle's explicit expansion, in lock step, probing a small weight table. Distinct by configuration and features.",
"C11": "Case: random contextual-bandit histories; the scorer versus a regressor driven with the oracle's unions of features and its labels and weights (ips, mtr). Distinct by history.",
"C12": "Case: (70%) a random distribution, floor and support rule for the mixing function against exact water-filling; (30%) a policy after random training, also with values at the limits of f32. Non-trivial: at least one action. Distinct by input.",
"C13": "Case: an exploration policy and a scorer trained in lock step; probabilities recomputed in f64 from the scorer's scores. Distinct by history.",
"C14": "Case: eight structured examples written as VW text in varied spellings; the independent hash oracle says the features and the label. Distinct by text.",
"C15": "Case: eight structured examples written as JSON in varied spellings (order, whitespace, extra members, Unicode); oracle as for text. Distinct by text.",
"C16": "Case: eight structured examples written as decision-service JSON; oracle as for text. Distinct by text.",
"C17": "Case: six structured examples written in every format; parsed features and labels compared across formats, models trained from each compared. Distinct by text.",
"C18": "Case: a stream of examples with blank lines, CR LF, missing final newline, read through a reader that fragments and interrupts. Judged: the examples, in order, each once, then a stable end. Distinct by stream.",
"C19": "Case: random reduction trees (valid and invalid), settings spelled out, omitted, unknown or out of range, as JSON and YAML. Judged: acceptance against a type table, behaviour of defaults. Distinct by configuration.",
"C21": "Case: random sequences of labels, predictions and features given to every metric. Judged: value against the f64 definition at checkpoints. Distinct by sequence.",
"C23": "Case: random configurations of the elementwise reduction versus a plain regressor on the oracle's position-wise products, in lock step; up to three interactions inside each other, namespaces named like the products, and below the bandit scorer (products of an action with the shared context). Distinct by history.",
"C24": "Case: mutated, truncated and random text for every parser, foreign and truncated model files, broken configurations and model JSON. Judged: error or a valid result, no panic, parser usable afterwards. Distinct by input.",
"C25": "Case: random labels, predictions, weights and ranges for both losses. Judged: derivatives by finite differences, update by integrating the gradient flow. Distinct by input.",
"C26": "Case: random text examples; extracted names re-hashed by the independent oracle versus the parsed features, as multisets; interaction names versus the model's indices. Distinct by text.",
"C27": "Case: a random stack with and without debug reductions in lock step; the binary reduction versus a regressor driven with +1/-1. Distinct by history.",
"C29": "Case: a random history of operations on a feature container; after every step its listing, lookups, products and comparisons against the plain list of what was put in, and against a container without the past. Distinct by history.",
"C30": "Case: a random stack, format and a few shapes of examples, parsed, predicted, learned and given back block after block with names that never come back. Judged: bytes held after each block, CPU time of each block. Distinct by configuration.",
"C31": "Case: a random history of writes, copies, stores and loads of a table of random sizes, against a model of it, every cell compared; a stored table with one part changed; or a walk over random features and interactions in a table of unique values. Distinct by sizes and history, or by features and configuration.",
}

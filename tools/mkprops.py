import json
props=[]
def P(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
core="reductionml-core/src/"
P("C01","Parallel training gives exactly the sequential result",
 "Training from the command line on a data file gives the same predictions (one per example, in file order), the same reported metric values and the same saved model whatever the number of parse threads, the queue size and the thread schedule, namely those of the run with zero parse threads. Every such run on valid data terminates.",
 ["schedules","inputs","configurations"],"every data file in any supported format, every model configuration, every thread count and queue size (including 1), every interleaving of reader, parse workers and learner",
 "The existing tests never run training at all, let alone with several threads; ordering depends on the interleaving of three kinds of threads.",
 ["reductionml-cli/src/train.rs"],[("per-example result slot handed to learner in read order","reductionml-cli/src/train.rs ParseResult / learn queue"),("slot readiness wait/wake","reductionml-cli/src/train.rs await_result/set_result")],
 ["predictions file","saved model file","printed metrics table","process exit"],"delay/trace points in the training pipeline (cfg reml_monitor)",
 [("ready flag","parsed result published","reductionml-cli/src/train.rs")])
P("C02","The training pipeline has no data race and no undefined behaviour",
 "No execution of multi-threaded training, of concurrent parsing, or of the shared feature-container pool performs a data race, reads memory that another thread may be writing, or otherwise triggers undefined behaviour. This holds for every thread count, queue size and input.",
 ["schedules","inputs"],"every interleaving of the reader, parse worker and learner threads and of threads sharing one pool",
 "Tests are single threaded and uninstrumented; a race or misuse of the unsafe cells leaves no visible failure in a normal run.",
 ["reductionml-cli/src/train.rs",core+"object_pool.rs"],[("atomic ready flag guards unsafe cells","reductionml-cli/src/train.rs ParseResult"),("mutex around pool storage",core+"object_pool.rs")],
 ["ThreadSanitizer reports","Miri reports"])
P("C03","Recycled feature containers are indistinguishable from fresh ones",
 "Parsing an example into a container that was used before and handed back to the pool gives the same features, predictions and learned model as parsing it into a brand-new container, whatever the container held earlier. A pooled object is held by at most one owner at a time, no returned object is lost or handed out twice, and the pool is empty or reusable from any number of threads.",
 ["histories","inputs","schedules"],"every history of earlier examples (other namespaces, larger or smaller, interrupted by parse errors) and every interleaving of takers and returners",
 "Unit tests parse one example with an empty pool; leakage needs particular earlier contents.",
 [core+"object_pool.rs",core+"sparse_namespaced_features.rs",core+"types.rs",core+"parsers/*.rs"],[("clear on return",core+"sparse_namespaced_features.rs clear"),("pool take/return",core+"object_pool.rs")],
 ["parsed features","predictions","pool size"])
P("C04","Predicting never changes the model or the features",
 "Asking a model for a prediction leaves the model exactly as it was (its serialized form and all later predictions and learning are unaffected) and leaves the caller's features as they were. Predicting repeatedly on the same features returns the same answer each time.",
 ["histories","inputs","configurations"],"every model configuration, training history and feature set, including features sharing namespaces between context and actions",
 "Tests predict once on tiny inputs; purity must hold after arbitrary histories and for every reduction stack, also in builds without debug assertions.",
 [core+"workspace.rs",core+"reduction.rs",core+"reductions/*.rs",core+"sparse_namespaced_features.rs"],[("temporary append/remove of features around recursion",core+"reductions/cb_adf.rs, "+core+"reductions/elementwise_interaction.rs"),("immutable predict",core+"reduction.rs")],
 ["serialized model bytes","prediction values","features before/after"])
P("C05","Predict-then-learn equals predict followed by learn",
 "The combined predict-and-learn operation returns exactly what predicting would have returned just before, and leaves the same model as learning alone on that example. Therefore the model after a training run does not depend on whether predictions were requested, written out or measured.",
 ["histories","configurations","inputs"],"every stack configuration, example sequence and mix of the operations; both library and command line",
 "Some reductions override the combined operation separately; tests exercise only one of the paths on one example.",
 [core+"reduction.rs",core+"reductions/*.rs","reductionml-cli/src/train.rs"],[("default combined operation and overrides",core+"reduction.rs, "+core+"reductions/elementwise_interaction.rs, binary.rs, debug.rs"),("quiet path learns only","reductionml-cli/src/train.rs process_example")],
 ["predictions","serialized model"])
P("C06","Saving and loading a model is invisible to everything that follows",
 "A model loaded from its own saved binary form gives the same prediction for every input as the original, saves to an equivalent form again, and continues to learn exactly like the original would have. This holds at every point of every training history.",
 ["histories","crash_points","configurations"],"every configuration (all reductions, bit widths, seeds, interactions) and every cut point of a training history",
 "Existing round-trip tests cover bare weight tables; the running state of learners, counters and label ranges only matters after further learning.",
 [core+"workspace.rs",core+"dense_weights.rs",core+"reductions/*.rs"],[("serde of reduction state",core+"reductions/*.rs"),("sparse weight encoding",core+"dense_weights.rs")],
 ["predictions after reload","continued learning","re-saved bytes"])
P("C07","Exporting a model to JSON and importing it back loses nothing",
 "The human-readable JSON form of a model, after passing through text, loads into a model that predicts and continues to learn exactly like the original; its weight listing contains exactly the features with non-zero learned state. This also holds through the command-line export and import commands.",
 ["histories","configurations"],"every configuration and training history, including models with several weights per feature index and extreme weight values",
 "Tests round-trip a hand-made weight table only; reshaping of the weight table depends on sizes and contents.",
 [core+"workspace.rs",core+"dense_weights.rs","reductionml-cli/src/export_model.rs","reductionml-cli/src/import_model.rs"],[("rewriting sparse table to per-feature arrays and back",core+"workspace.rs, "+core+"dense_weights.rs")],
 ["JSON model","predictions after import"])
P("C08","The regressor learns by the coin-betting update on each feature",
 "After any sequence of weighted examples, the regressor's raw prediction for any features is the sum over their (feature, value) terms of the weight that the coordinate-wise coin-betting update with the configured alpha and beta assigns, its reported prediction is that value limited to the seen label range and passed through the configured link, and features never seen keep weight zero. Learning changes the weights of features present in the example only.",
 ["histories","inputs","configurations"],"every sequence of examples with finite values, labels and positive weights, every setting of alpha, beta, link, bit width and constant feature",
 "Tests compare a handful of fixed sequences; normalisation, scale tracking and clipping interact over long mixed-scale histories.",
 [core+"reductions/coin.rs",core+"weights.rs",core+"dense_weights.rs"],[("predict/update pair",core+"reductions/coin.rs"),("feature iteration",core+"weights.rs"),("weight addressing",core+"dense_weights.rs")],
 ["raw and final predictions for probe features after each step"])
P("C09","Regression predictions stay finite and inside the seen label range",
 "With the identity link and squared loss every reported prediction is a finite number between the smallest and largest of zero and all labels learned so far; with the logistic link it lies between 0 and 1. This holds even for extreme but finite feature values, labels and weights.",
 ["inputs","histories"],"every finite history, including very large, very small and zero feature values, labels and importance weights",
 "Requires driving numeric extremes through long histories; unit tests use small benign numbers.",
 [core+"reductions/coin.rs"],[("clamp to label range, NaN guard",core+"reductions/coin.rs")],
 ["reported predictions"])
P("C10","Interactions contribute every combination exactly once",
 "For each configured pair (triple) of namespaces, the model sees exactly one product feature per combination of their features: all cross combinations for different namespaces and each unordered combination (with repetition) once for a repeated namespace. The product feature's value is the product of the values and its identity depends only on the identities of the parts, and it is used the same way for prediction and learning.",
 ["inputs","configurations"],"every set of interactions of length two and three with repeated, missing, empty and default namespaces, every bit width",
 "Tests use one or two features per namespace; index mistakes show only with repeated namespaces or several features.",
 [core+"weights.rs",core+"interactions.rs",core+"sparse_namespaced_features.rs"],[("nested interaction loops",core+"weights.rs"),("interaction compilation",core+"interactions.rs")],
 ["weights probed at every index after learning","predictions"])
P("C11","Contextual-bandit scoring and learning follow the configured estimator",
 "The contextual-bandit scorer returns one score per action in the order given, equal to the regressor's raw output on the union of that action's and the shared features, independent of the other actions. Learning updates the regressor as the estimator prescribes: with the inverse-propensity type every action gets its cost divided by its probability (zero for unchosen ones), with the importance-weighted type only the chosen action is learned, with its cost and weight 1/probability times events so far over actions so far, and shared features are optional.",
 ["histories","inputs","configurations"],"every history of events with varying numbers of actions, present or absent shared features, overlapping namespaces and either estimator",
 "Tests check one stream with fixed shape; running averages, overlap and order effects need varied histories.",
 [core+"reductions/cb_adf.rs",core+"types.rs"],[("estimator specific learn",core+"reductions/cb_adf.rs"),("shared feature append/remove",core+"sparse_namespaced_features.rs")],
 ["scores","equivalence with a directly driven regressor"])
P("C12","Exploration always returns a valid distribution with the promised floor",
 "Every exploration prediction lists each action exactly once with a non-negative probability, the probabilities sum to one, and every action (for uniform mixing: every action of non-zero probability) gets at least the configured exploration mass divided by the number of such actions. The minimum-probability adjustment keeps the order of the actions and changes nothing when the floor is already met.",
 ["inputs","histories","configurations"],"every score vector, number of actions, ties, extreme scores, and every valid exploration setting",
 "Unit tests cover a few hand-made vectors; the projection has branch boundaries and rounding hazards.",
 [core+"explore.rs",core+"reductions/cb_explore_adf_*.rs"],[("minimum probability projection",core+"explore.rs")],
 ["action probabilities"])
P("C13","Each exploration policy assigns the probabilities its algorithm defines",
 "From the scorer's scores (lower is better): epsilon-greedy gives 1-epsilon plus an equal share of epsilon to the best action and that share to the others; softmax gives probabilities proportional to exp(-lambda*score); the inverse-gap policy gives every other action 1/(n+gamma*gap) and the rest to the best, with gamma the configured scale times the number of events learned so far raised to the configured exponent, and learns with importance weight one. Any configured uniform mixing is applied on top.",
 ["histories","configurations","inputs"],"every history, number of actions and parameter setting",
 "Tests fix one seed stream and rounding-level outputs; dependence on the event count and parameters needs histories.",
 [core+"reductions/cb_explore_adf_greedy.rs",core+"reductions/cb_explore_adf_softmax.rs",core+"reductions/cb_explore_adf_squarecb.rs"],[("policy formulas",core+"reductions/cb_explore_adf_*.rs")],
 ["action probabilities versus scores of the inner scorer trained identically"])
P("C14","VW text is parsed into exactly the features and label it denotes",
 "Every well-formed text example yields exactly the namespaces, features, values (feature value times namespace multiplier, default one), label, weight, chosen action, cost and probability it spells out, with named, string-valued and positional features hashed by the documented chain under the configured seed and bit width. Shared and action lines of a multi-line example keep their roles and order.",
 ["inputs","configurations"],"every well-formed single-line and multi-line example, any spacing, tags, unicode names, multipliers, empty namespaces, seeds and bit widths",
 "Tests parse about ten fixed lines; the grammar has many optional parts that combine.",
 [core+"parsers/vw_text_parser.rs",core+"parsers.rs",core+"hash.rs"],[("text grammar",core+"parsers/vw_text_parser.rs"),("feature hashing",core+"parsers.rs")],
 ["parsed features and labels"])
P("C15","JSON examples are parsed into exactly the features and label they denote",
 "Every example in the documented JSON format yields exactly the features, values, label and weight (default one) it spells out: numbers, strings, booleans, lists of numbers and lists of strings in any namespace including the default one; absent label or shared part is allowed. Unrelated extra fields do not matter.",
 ["inputs","configurations"],"every document of the documented format for regression and contextual bandits, any nesting of value kinds, sizes, key order, escapes, seeds and bit widths",
 "Tests parse two fixed documents.",
 [core+"parsers/json_parser.rs",core+"parsers.rs"],[("document walk",core+"parsers/json_parser.rs")],["parsed features and labels"])
P("C16","DsJson examples are parsed into exactly the features and label they denote",
 "Every well-formed decision-service JSON example yields one shared part and one part per action with exactly the features spelled out: nested objects and arrays open namespaces by their key, numbers, true booleans, strings and positional array numbers become features, false and null array items and keys starting with an underscore are ignored. The label is the recorded index, cost and probability, or absent when all three are.",
 ["inputs","configurations"],"every well-formed document, any nesting depth, array of objects, key order, seeds and bit widths",
 "Tests parse a few fixed documents.",
 [core+"parsers/dsjson_parser.rs",core+"parsers.rs"],[("recursive namespace stack",core+"parsers/dsjson_parser.rs")],["parsed features and labels"])
P("C17","The same example means the same thing in every format",
 "An example expressed in any two of the supported input formats yields the same features and label, so models trained on equivalent files in different formats are interchangeable. All feature identities lie inside the configured index space and depend only on names, seed and bit width, and reducing the bit width only masks the identities.",
 ["inputs","configurations"],"every example expressible in more than one format, every seed and bit width, default and named namespaces",
 "Each parser has its own tests with its own literals; nothing compares formats.",
 [core+"parsers/*.rs",core+"parsers.rs",core+"sparse_namespaced_features.rs"],[("shared feature hashing",core+"parsers.rs"),("namespace naming",core+"sparse_namespaced_features.rs")],["parsed features","trained models"])
P("C18","Reading a data file yields every example exactly once, in order",
 "Whatever way the bytes arrive, reading a data stream yields each example of the stream exactly once, in order and with complete contents, for line formats and for multi-line text examples separated by blank lines. Line endings, blank lines (also repeated, leading, trailing) and a missing final newline in text input change nothing.",
 ["inputs","fault_sequences"],"every stream of examples, every fragmentation of reads, interrupted reads, buffer sizes and newline style",
 "Tests read whole in-memory strings once.",
 [core+"parsers/vw_text_parser.rs",core+"parsers/json_parser.rs",core+"parsers/dsjson_parser.rs"],[("chunk readers",core+"parsers/vw_text_parser.rs read_single_line/read_multi_lines, json/dsjson get_next_chunk")],["sequence of chunks and parsed examples"])
P("C19","Only valid configurations are accepted, and defaults mean what is documented",
 "Creating a model succeeds for every stack whose adjacent reductions agree on feature, label and prediction types and whose settings are known and in range, and reports an error (never a crash and never a silently different model) for any mismatched stack, unknown reduction, unknown setting or out-of-range setting. Omitted settings behave exactly like their documented defaults written out, and YAML and JSON configurations are equivalent.",
 ["configurations"],"every nesting of the available reductions up to the depth explored, every setting omitted, defaulted, changed, misspelled or out of range, JSON and YAML",
 "Tests build a few valid stacks; the configuration space is combinatorial.",
 [core+"workspace.rs",core+"reduction_factory.rs",core+"reduction.rs",core+"global_config.rs",core+"reductions/*.rs"],[("type agreement check",core+"reduction.rs check_and_get_reason"),("strict config parsing",core+"reduction_factory.rs, reductions/*.rs")],["creation result","type description","behaviour of created models"])
P("C20","The published configuration schema agrees with what is accepted",
 "The generated configuration schema accepts every configuration the system accepts and creates a model from (up to numeric ranges), and, for settings written as objects, rejects configurations with unknown settings, unknown reductions, a missing reduction name or settings of the wrong type, at every nesting level. Default configurations that the tool produces for the documented reductions are accepted by both and by the tool's own checker.",
 ["configurations"],"every generated configuration, valid or mutated, at every nesting level",
 "One test validates default configs only.",
 [core+"config_schema.rs","reductionml-cli/src/gen_schema.rs","reductionml-cli/src/config.rs"],[("schema assembly",core+"config_schema.rs")],["schema document","acceptance by schema and by the system"])
P("C21","Reported metrics equal their definition over the whole run",
 "After any run, and at every progress row, the example counter, mean squared error, estimated reward and parsed feature count equal their definitions computed from the labels, features and predictions of exactly the examples processed so far. Writing predictions or changing the progress period does not alter the values.",
 ["histories","inputs"],"every sequence of examples and predictions, every progress setting and combination of metrics",
 "No test computes a metric.",
 [core+"metrics/*.rs","reductionml-cli/src/train.rs"],[("incremental metric accumulators",core+"metrics/*.rs"),("progress reporting","reductionml-cli/src/train.rs TrainResultManager")],["metric values","printed table"])
P("C22","Training in stages through saved files equals training in one go",
 "Splitting a data file at any example boundaries and training stage by stage from the command line, each stage starting from the previous stage's saved model, gives the same predictions and the same final model behaviour as one run over the whole file. Re-running the same training in a fresh process gives the identical result, and exporting and importing the model between stages makes no difference.",
 ["histories","crash_points","configurations"],"every split of every data file, every configuration and format",
 "No test trains from the command line.",
 ["reductionml-cli/src/train.rs","reductionml-cli/src/export_model.rs","reductionml-cli/src/import_model.rs",core+"workspace.rs"],[("model load/save in training command","reductionml-cli/src/train.rs")],["prediction files","saved models"])
P("C23","Elementwise interaction feeds exactly the position-wise products",
 "With the elementwise-interaction reduction the base learner sees, for the two configured dense namespaces, one feature per position present in both, valued with the product, plus all other namespaces, plus the originals only when they are to be kept; extra positions of the longer list are ignored and a missing namespace contributes nothing. Interactions inside of interactions do the same with what the outer one passes on. Prediction, learning and the combined operation agree on this, and the caller's features are restored.",
 ["inputs","configurations","histories"],"every pair of dense lists of any lengths, any namespace names, seeds and bit widths, with and without other namespaces and bandit stacks above",
 "Tests use one pair of short lists with fixed names; index arithmetic depends on the hash of the names.",
 [core+"reductions/elementwise_interaction.rs"],[("elementwise product and temporary namespace swap",core+"reductions/elementwise_interaction.rs")],["predictions versus a plain regressor given the products","number of weights"])
P("C24","Bad input is reported as a failure, never a hang or a half-made model",
 "Text that is not a valid example, a missing label, a truncated or foreign model file or an invalid configuration makes the library call return an error and makes the command-line tool exit with a failure status in bounded time without writing an output model, at any position in the file and for any number of threads and queue size. No input text of any kind makes a parser crash, and examples before the bad one are processed as usual.",
 ["inputs","fault_sequences","schedules"],"every malformed or truncated line, at every position, for every thread count and queue size; every truncation of model files and corruption of configuration files",
 "Tests feed only well-formed data.",
 [core+"parsers/*.rs",core+"workspace.rs","reductionml-cli/src/train.rs"],[("error returns of parsers",core+"parsers/*.rs"),("thread shutdown on failure","reductionml-cli/src/train.rs")],["call results","exit status","output files"])
P("C25","Each loss function's value, derivatives and updates agree",
 "For the squared and logistic losses, the first and second derivative are the derivatives of the loss value with respect to the prediction, the gradient square is the square of the derivative, the simple update is the negative scaled derivative and the invariant update has the right sign, never overshoots the label and approaches the simple update for small steps. This holds for all predictions and labels in range.",
 ["inputs"],"every finite prediction, label within range and step size",
 "Tests evaluate one point per function.",
 [core+"loss_function/*.rs",core+"loss_function.rs"],[("closed forms",core+"loss_function/*.rs")],["function values"])
P("C26","Feature names reported for an example hash to the features it uses",
 "The names extracted from a text example, combined with their namespace, hash to exactly the feature identities that parsing the example yields, for named, string-valued and positional features of every namespace, and interaction names hash to the identities the model uses for those interactions. No feature of the example is missing from the extraction.",
 ["inputs","configurations"],"every well-formed text example (single and multi-line), every seed and bit width",
 "No test ties names to identities.",
 [core+"inverse_hash_table.rs",core+"parsers/vw_text_parser.rs",core+"parsers.rs"],[("name based hashing",core+"inverse_hash_table.rs"),("name extraction",core+"parsers/vw_text_parser.rs")],["hash of names versus parsed indices"])
P("C27","Debug and binary reductions wrap the model faithfully",
 "Inserting the debug reduction anywhere in a stack changes no prediction and nothing learned. The binary reduction predicts true exactly when the underlying regressor's prediction is positive and learns true as +1 and false as -1.",
 ["histories","configurations","inputs"],"every stack, insertion point, history and debug setting",
 "Tests never compare a stack with and without the wrapper over a history.",
 [core+"reductions/debug.rs",core+"reductions/binary.rs"],[("delegation",core+"reductions/debug.rs, "+core+"reductions/binary.rs")],["predictions of wrapped and unwrapped stacks"])
P("C28","The Python package behaves exactly like the core library",
 "Every configuration, example, label, prediction and model passed through the Python package gives the same predictions, labels and models as the core library does, whether JSON examples are given as text or as dictionaries, and models are exchangeable in both directions. What the core rejects raises an ordinary exception and changes nothing. Feature objects created, dropped and reused in any order from Python never influence each other.",
 ["histories","inputs","configurations"],"every history of parse, predict, learn, save and load calls from Python, with any object lifetimes",
 "The Python tests run a few fixed calls and do not compare with the library.",
 ["reductionml-python/src/*.rs","reductionml-python/python/reductionml/__init__.py"],[("wrapper conversions","reductionml-python/src/*.rs"),("process-wide container pool","reductionml-python/src/features.rs, lib.rs")],["values returned to Python versus the core library's"])
P("C29","A feature container holds exactly the features put into it",
 "Through any sequence of adding single features or lists, opening, replacing, taking out and putting back namespaces, appending another container's features and removing them again, copying, clearing and recycling, a feature container lists, finds, counts, multiplies and compares exactly the features that were put in, under their namespaces and in the order they were added. Two containers are equal exactly when they hold the same features, and nothing a container held before it was cleared can be told from it afterwards.",
 ["histories","inputs"],"every sequence of public operations on feature containers, with any features and namespaces",
 "Tests add a few features to new containers; reuse, removal and comparison after a history are not tested.",
 [core+"sparse_namespaced_features.rs",core+"object_pool.rs"],[("namespace map with inactive entries kept for reuse",core+"sparse_namespaced_features.rs"),("clearing on return to the pool",core+"object_pool.rs")],["listings, lookups, products and comparisons of the container"])
P("C30","Training needs bounded memory and steady time per example",
 "The memory that training holds depends on the model, the queue size and the size of single examples, not on the number of examples or distinct names the data has, and the time per example does not grow with the number of examples before it. Reading waits for training: while the predictions are not taken, no more examples are read than the queues, threads and buffers hold. This holds in every format, with any number of parse threads, and through the Python package.",
 ["histories","schedules","configurations"],"every length of data, every variety of names, every number of parse threads and queue size",
 "Tests use a handful of examples, for which nothing is ever noticed.",
 ["reductionml-cli/src/train.rs",core+"object_pool.rs",core+"sparse_namespaced_features.rs",core+"parsers/*.rs"],[("bounded queues","reductionml-cli/src/train.rs"),("reuse of strings and feature containers",core+"object_pool.rs, "+core+"sparse_namespaced_features.rs")],["bytes held by the training thread","peak memory and CPU time of the process","bytes of data taken"])
P("C31","A weight table keeps every state apart, and stores and walks it exactly",
 "For any numbers of features, models and state values a new weight table is zero everywhere, and what is written for one feature and model is read back there and changes nothing elsewhere. A table that is copied, or stored and loaded in binary, text or listed form, is equal to the original; a table in which one value differs is not. Impossible sizes, and stored tables whose parts do not fit together, are refused. A walk over an example visits every feature, every product and the constant once, with its value and the weight or state of the chosen model, whether it reads or changes them.",
 ["inputs","histories","configurations"],"every size of table, every history of writes, copies and loads, every example, set of interactions and model index",
 "Tests use a table of four features and never store it; tables of several models and walks over products are not tested.",
 [core+"dense_weights.rs",core+"weights.rs"],[("index computation with bit fields",core+"dense_weights.rs"),("sparse and listed stored forms",core+"dense_weights.rs"),("the three walks from one macro",core+"weights.rs")],["cells, equality and stored forms of tables","values and weights visited by walks"])
import sys
for p in props:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    import re
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p,s)
print(len(props))

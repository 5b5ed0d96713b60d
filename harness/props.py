# How each property is decided: harness, sources it links, level, bounds.
PROPS = {
 "C01": dict(harness="c01_types.cpp", level="exploration",
   rule="every string of the alphabet 01.-e+9 E\"ta up to the length bound, every byte, every printable pair, every number with sign/exponent decorations, every one-character edit of true/false; non-trivial: the text is not plain STRING (or is a round trip/vector case)",
   bounds={"quick": "strings of length <= 5 over 12 symbols; integers 0..999 x 80 decorations; all 1-byte and printable 2-byte strings; texts of up to 1 000 000 characters (6 lengths x 8 prefixes x 7 suffixes x 6 fill characters), unsigned types",
           "thorough": "strings of length <= 6 over 12 symbols; integers 0..9999 x 80 decorations"},
   assumptions=["classic C locale"]),
 "C02": dict(harness="c02_csv_access.cpp", level="model_checking",
   bounds={"quick": "7 files; every program of up to 4 of 9 + rows+2 operations (indexed reads incl. wrap-around, iterator moves/copies/dereferences, entry, header, object copy); files of up to 1030 rows, every pair of 28 row indices; files of 65 538 and 131 080 rows, every pair of selected rows; two objects on every pair of files, every program of up to 3 (4 on six pairs) of 12 operations with assignments, kept rows and kept iterators",
           "thorough": "the same, up to 5 operations"}),
 "C03": dict(harness="c03_csv_views.cpp", level="exploration",
   rule="every file: header plus data table of the listed dimensions over the fields '',1,-2.5,true,ab, terminated or not, 3 separators, 4 ways of giving types; every raw text over 1 , newline a; every header text; long files; every standalone row text; non-trivial: the file has a data row",
   bounds={"quick": "tables up to 3x2 / 2x2 / 1x3 (columns x data rows); raw texts of length <= 6; headers <= 5 symbols; rows <= 5 symbols; rows and tables of up to 70000 columns or rows; every list of given types",
           "thorough": "tables up to 3x2 and 2x3 with both endings; raw texts of length <= 8; headers <= 6; rows <= 6"}),
}
PROPS.update({
 "C04": dict(harness="c04_encoding.cpp", level="exploration",
   rule="every table of the bounded dimensions, every subset of columns as labels, every assignment of class values to the label cells, directly and through a CSV file; non-trivial: at least one label column and one entry",
   bounds={"quick": "1-4 columns, up to 4 rows (2-3 with several label columns), 3-4 class values; 5-7 columns with patterned values and every label subset; CSV files up to 3x3; up to 1030 classes, 70 001 entries, 300 columns, classes differing in the last bit or by magnitudes",
           "thorough": "one more row / column"}),
})
PROPS.update({
 "C05": dict(harness="c05_damaged.cpp", level="fault_enumeration",
   technique="exhaustive fault enumeration (every truncation point, every one-byte header corruption) on the real readers against a byte-level oracle",
   rule="every pair of truncation points (all inside the headers, all around record boundaries) of 0-3 record file pairs, every value of every header byte, all declared-count and shape combinations of a lattice, swapped and missing files, CIFAR truncations; non-trivial: the file is damaged",
   bounds={"quick": "0-3 records; truncation points: every header byte, +-2 around every record boundary, record middles; 24 header bytes x 255 values; records read twice in two orders",
           "thorough": "additionally every 37th byte of the record area"}),
 "C06": dict(harness="c06_mnist.cpp", level="model_checking",
   bounds={"quick": "6 file pairs (complete and truncated, 2 pixel patterns), files of 1030 records, sparse pairs of up to 5 500 001 records; every program of up to 3 of image/label/item/entry x index (incl. wrap-around) reads", "thorough": "programs of up to 4 reads"}),
 "C07": dict(harness="c07_cifar.cpp", level="model_checking",
   bounds={"quick": "12 files (2 formats x 2 orders x patterns/truncation), sparse files of 10000 records; every program of up to 3 reads over 4 kinds x 6-8 indices; every label value; 52x52x256 colours", "thorough": "programs of up to 4 reads; all 256^3 colours"}),
})
PROPS.update({
 "C08": dict(harness="c08_json_text.cpp", level="exploration", hang=10,
   rule="every document tree of up to 5 nodes over 6 leaf values, lists and dicts; every pair of ~35 leaf values x 7 keys x 6 shapes; every text of up to 6 symbols over the structural alphabet; 7 numeric types x 64 magnitudes x 5 offsets x sign x 5 ways of holding the number; every truncation, deletion, replacement and insertion in 6 documents; non-trivial: a container document, a valid text or a damaged document",
   bounds={"quick": "trees of <= 5 nodes; texts of <= 6 symbols over 8; lists up to 65 537 items, nesting of up to 1 000 000 levels; every token sequence of up to 6 tokens, the accepted language and its content", "thorough": "trees of <= 6 nodes; texts of <= 7 symbols; lists up to 1000 items"},
   assumptions=["strings and keys contain no double quote (the format has no escapes)", "no whitespace between tokens (the writer emits none)"]),
 "C09": dict(harness="c09_json_edit.cpp", level="model_checking",
   bounds={"quick": "5 start documents x every program of up to 3 of 27 edit operations on two documents; all typed constructors; documents of up to 5000 elements; leaf type changes", "thorough": "programs of up to 4 operations"}),
})
PROPS.update({
 "C10": dict(harness="c10_dataset.cpp", level="model_checking",
   bounds={"quick": "flat 0-13 values x feature size 0-5 x sequence 0-5 x 8 label sets x 1 change; programs of 3 of 14 changes on 27 larger datasets; matrices up to 6x4 incl. one shorter row x sequence 0-7; cubes up to 4x3x3 incl. ragged; up to 131 075 values; cubes with empty matrices", "thorough": "programs of 2 and 4 changes"}),
})
PROPS.update({
 "C11": dict(harness="c11_split.cpp", level="exploration",
   rule="every dataset of 0-12 entries x 1-3 features x sequence sizes x label sets x 36 percentages (incl. out of range), every range and every range of a range; splits of splits; sizes up to 4096; non-trivial: more than one entry",
   bounds={"quick": "0-12 entries, 1-3 features, sequence 1-5; ranges over 0-9 entries; splits of splits over 36x36 percentages; up to 131 075 entries", "thorough": "the same"}),
 "C12": dict(harness="c12_reorder.cpp", level="exploration",
   rule="every dataset of 0-7 entries x 1-3 features x 61 seeds; every value table over 4 values of up to 4x1, 3x2, 2x3; every range x column subset; every pair of shapes with sides up to 3 x axis x label sets; sizes up to 1025 entries; non-trivial: entries are present",
   bounds={"quick": "61 seeds; shapes with sides 1-3; datasets of up to 131 075 entries; value scales from 4.9e-324 to the largest number; columns the dataset does not have", "thorough": "401 seeds; shapes with sides 1-4"}),
})
PROPS.update({
 "C13": dict(harness="c13_tensor.cpp", level="exploration",
   rule="every pair of 3-D shapes with sides 0-4 x axis (incl. an invalid one) x mismatch; up to 4 blocks; every 1-4 dimensional shape with sides up to 3 x axis x offset x length; matrices 0-9 x 0-9 in double, float and int; sizes up to 256; non-trivial: elements are moved",
   bounds={"quick": "sides 0-4, up to 4 blocks, matrices up to 9x9 (exhaustive) and 256x256 (selected); shapes with sides of up to 2100", "thorough": "sides 0-5, up to 5 blocks"}),
})
PROPS.update({
 "C14": dict(harness="c14_conv_pool.cpp", sources="dnn", level="exploration",
   rule="every geometry with sides, channels, kernel, stride, padding and filters within the bounds, constructed directly or by re-shaping; larger lattices of each dimension; every value assignment of small pooling inputs; non-trivial: more than one input position",
   bounds={"quick": "convolution: sides 1-4, channels 1-2, kernels 1-3, strides 1-2, padding 0-1, filters 1-2, plus lattices up to sides 8, kernels 5, strides 5, padding 3 and 33x33x8, and one or two dimensions very large (sides 70-300, 130 channels, 129 filters, kernels 40, strides 64, padding 20); magnitudes 2^-300 to 2^300; pooling: sides 1-6, channels 1-3, kernels 1-4, strides 1-3", "thorough": "sides 5/7, strides 3, padding 2, all value patterns"}),
})
PROPS.update({
 "C15": dict(harness="c15_math.cpp", sources="dnn", level="exploration",
   rule="every vector of up to 3 (4) of 11 lattice values, a grid of 801 x 4 longer vectors, in double and float, in place and not; every activation layer on every vector of up to 3 of 6 values; every target/output pair over 3 x 6 values up to length 3; every history of up to 3 of 16 samples and score resets on the loss layers; non-trivial: a non-empty vector",
   bounds={"quick": "vectors up to length 3, lengths of up to 70 001, magnitudes 2^-70 to 2^9, histories up to 3 samples", "thorough": "vectors up to length 4, histories up to 4 samples"}, assumptions=["long double libm as the reference"]),
})
PROPS.update({
 "C16": dict(harness="c16_gradients.cpp", sources="dnn", level="exploration",
   rule="every layer configuration within the bounds x input pattern x output gradient direction; every chain of up to 3 of 8 layers x loss x batch size; every branching of up to 3 layers over a shared trunk; analytic gradients against central differences of the model's own forward pass; non-trivial: gradients are present",
   bounds={"quick": "dense 1-5 x 1-5 and up to 64x33; convolution sides 1-4, kernels 1-3, strides 1-2, padding 0-1; pooling sides 1-5; activations of up to 3 of 7 values and up to 40 elements; chains of up to 3 layers, branched models of up to 5, branches over up to 260 values; gradients and inputs of magnitudes 2^-90 to 2^80", "thorough": "dense 1-7, convolution 4x4x3x3, pooling sides 1-6, activations up to 4"},
   assumptions=["central differences approximate derivatives away from kinks; points within one step of a kink are recognised and skipped"]),
})
PROPS.update({
 "C17": dict(harness="c17_optimizers.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "5 rules x 5 layer pairs x every program of up to 5 of 8 operations (backward passes, updates from the layer or a clone, checked updates, resets); 5 rules x 3 models x programs of up to 6 of 5 operations; histories of up to 160 updates with two optimizers; successive layers of one optimizer; gradients of magnitudes 2^-120 to 2^120", "thorough": "programs of up to 6 and 7 operations"}),
})
PROPS.update({
 "C18": dict(harness="c18_graph.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "4 start graphs x every program of up to 4 of 19 insertions; every digraph on 1-3 nodes incl. self arcs, every loop-free digraph on 4, every acyclic one on 5 nodes x losses x insertion orders; every labelled forest of up to 5 layers executed; stars, chains and layered graphs of up to 65 layers, up to 258 layers in selected shapes, every mixture of 3 layers of 8 kinds, sizes and names; graphs assigned to themselves", "thorough": "programs of up to 5 insertions, forests of up to 6 layers"}),
})
PROPS.update({
 "C19": dict(harness="c19_dump_load.cpp", sources="dnn", level="fault_enumeration",
   rule="every layer type x 5 configurations x 6 target configurations x 3 transports x prior use; ~60x32 parameter values; every chain of up to 3 of 9 layer kinds (and branchings) x sizes of the target; every program of up to 4 of 8 dump/load/train/copy operations over two files; every single-field removal, renaming, shortening, retyping of every layer and model document and every truncation of a model file; non-trivial: parameters are present or the document is damaged",
   technique="exhaustive enumeration of configurations, operation histories and single-point document damage on the real dump/load code against a reference document and the original layers",
   bounds={"quick": "5 configurations per layer type, chains of up to 3 layers, programs of up to 4 operations; chains and branches of up to 130 layers, layers of up to 130 units; recurrent time steps; layers of several input shapes", "thorough": "chains of up to 4 layers, programs of up to 5 operations"}),
})
PROPS.update({
 "C20": dict(harness="c20_copies.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "5 architectures x every program of up to 3 (4 on the smallest) of 24 copy/assign/move/swap/step/train/predict/set/destroy operations over three model variables; 13 layer types x every interleaving of two 4-step training programs of a layer and its clone; models of up to 40 levels or 260 units, up to 70 copies", "thorough": "programs of up to 4 (5) operations"}),
})

RACE = dict(sources="dnn", extra=["race_rt.cpp"], uninstrumented=["race_rt.cpp"], nosan=True, level="model_checking",
   flags=["-fsanitize=thread"], nolink=["-fsanitize=thread"],
   libs=["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock")), "-rdynamic", "-ldl"])
PROPS.update({
 "C21": dict(RACE, harness="c21_parallel.cpp",
   bounds={"quick": "2 policies x 6 architectures x 1-5 entries x batch sizes 1-4 x 1-2 epochs x 2 optimizers x concurrency 1-4: every order of the tasks without preemption, and with any number of preemptions at task starts, waits and locks (up to 4 entries); one preemption at every access to memory two tasks touch on 4 configurations; 3 network classes; every memory access checked for happens-before order and released memory", "thorough": "two such preemptions, 10 configurations, larger rounds"}),
})
PROPS.update({
 "C22": dict(RACE, sources="header", harness="c22_dense_tasks.cpp",
   bounds={"quick": "double and float, up to 5 tasks: every schedule with any number of preemptions at task starts, waits and locks; one preemption at every access to memory two tasks touch (two on the smallest); 12x12 sizes up to 31 and 12x12 up to 300 in one schedule; every memory access checked for happens-before order", "thorough": "up to 6 tasks, two preemptions on more sizes"}),
})
PROPS.update({
 "C23": dict(harness="c23_predict.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "11 architectures (4 dropout probabilities, heads, convolution, pooling) x every program of up to 4 of 9 operations (predictions, steps, updates, copies) followed by predictions; 14 layer kinds x every program of 5 of 7 operations; 4 networks x 1-4 entries x every program of 3 of 5 prediction calls; models of up to 70 levels or 300 units, 120 operations", "thorough": "programs one operation longer"}),
})
PROPS.update({
 "C25": dict(harness="c25_recurrent.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "3 hidden activations x sizes 1-3 x 1-5 steps x 3 initial states, sizes up to 16 and 17 steps, up to 40 inputs, 100 units and 100 steps; every assignment of 3 values to all parameters of the smallest layer; 6 layers x every program of 4 (5 on one) of 10 operations (inference, training, backward, hidden state set/partly set/reset, time steps changed, clone); models x every program of 4 of 5 operations", "thorough": "sizes 1-4, programs one operation longer"},
   assumptions=["central differences of the unrolled reference in long double; points within 1e-3 of a ReLU kink are compared for outputs only"]),
})
PROPS.update({
 "C24": dict(harness="c24_training.cpp", sources="dnn", level="model_checking",
   bounds={"quick": "9 networks x 3 policies x 1-5 entries x batches of 1-6 x 0-3 epochs x 2 optimizers x 2 losses x concurrency 1-3; x 3 initialisations x 3 seeds x 2 rates x 3 label placements x sequences; every history of 3 of 6 fit/evaluate/predict calls; run-time networks x every program of 4 of 7 operations; up to 70 001 entries, batches of up to 100 000, 12 epochs; scores after each fit; predictions of datasets with labels", "thorough": "6 entries, batches of 7, programs one operation longer"}),
})
PROPS.update({
 "C26": dict(harness="c26_misuse.cpp", sources="dnn", level="exploration",
   rule="14 layer kinds x 5 configurations x every program of up to 4 of 6 operations (initialise, re-shape, load, clone, train, update) with every index addressed after each; 3 learnable kinds x 5 configurations x 2 functions x 2 distributions x every script of 3 of 6 generator outputs incl. both extremes; moments of larger layers; every 4-layer chain of 7 kinds x initialisation; every pair of layer kinds and configurations loading each other and updating each other; every program of 3 of 9 refused uses on 4 models; non-trivial: all but layers without parameters",
   technique="exhaustive enumeration of operation programs and scripted random generator outputs on the real layers against closed-form parameter counts and bounds",
   bounds={"quick": "programs of 4 (3) operations, layers of up to 280 000 parameters, scripts of 3 generator outputs; seeds differing in one bit; identity (kind, name, shapes, printed text) of every layer", "thorough": "programs one operation longer"}),
})
PROPS.update({
 "C27": dict(harness="c27_descriptors.cpp", sources="dnn", level="exploration",
   rule="4 input shapes x every geometrically possible chain of up to 3 of 11 descriptor kinds through three ways of building a network; every pair of activations after every kind x initialisation x loss x flat or shaped input; 6 constructors x every program of up to 4 of 9 setting changes; every kind changed into every other after construction, with refused uses in between; every program of up to 3 of 5 calls on run-time networks, of up to 4 of 6 on ones with a misplaced input layer; non-trivial: more than one layer or change",
   technique="exhaustive enumeration of descriptor chains and edit programs on the real network classes against plain-loop layer mathematics",
   bounds={"quick": "chains of up to 3 layers, programs of up to 4 changes; descriptions of up to 65 layers and 257 units", "thorough": "chains of up to 4 layers, programs of up to 5 changes"}),
})

#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "source/"
PA, DN, DA, MI = S + "parser/", S + "dnn/", S + "data/", S + "middleware/"

prop("C01", "A field's inferred type and its converted value agree with its text",
 "For every text, the inferred type is a function of the text alone, the 'is X' predicates and the inferred type never contradict each other, and a text that denotes an integer, decimal, scientific-notation number or boolean converts to exactly that value. A text that does not denote a value of the requested type (a negative number for an unsigned one included) is rejected with an error or, when empty, yields zero, never an arbitrary value. The vector forms equal the element-wise forms.",
 ["inputs"], "every short string over the symbols numbers and booleans are made of, every byte, every decorated number, every one-character edit of the boolean words",
 "tests sample a few dozen strings; the property quantifies over all texts", [PA + "type_checker.hpp"],
 [("regular-expression based classification and stream conversion", PA + "type_checker.hpp TypeChecker, convert()")],
 observe=["TypeChecker::parse/is*", "convert<T>"])
prop("C02", "Reading a CSV row never depends on what was read before",
 "Whatever sequence of indexed row reads (including wrap-around past the last row), iterator moves, copies and dereferences, header and entry reads is performed on a CSV object or its copies, each read returns exactly the fields, types and row index of the addressed row of the file. A full traversal from begin to end visits every data row exactly once, in file order.",
 ["histories", "inputs"], "every operation program up to the depth bound over files with and without trailing newline, empty fields, ragged rows and a header only",
 "tests read rows in one or two fixed orders; the cached row and the two-directional stream seek depend on the whole access history", [PA + "csv.hpp"],
 [("row cache and forward/backward stream repositioning", PA + "csv.hpp CSV::operator[], CSVIterator")],
 state=[("row cache / stream position", "last row read and where the next line starts", PA + "csv.hpp CSV")],
 observe=["CSV::operator[]", "CSVIterator", "CSVRow", "CSVField"])
prop("C03", "A CSV file's shape, header, types, rows and data describe the file exactly",
 "For every CSV file, the number of rows and columns, the header, the given or inferred column types, each row's fields and the numeric data vector are those of the file's text: nothing is skipped, duplicated, shifted between columns, or read from outside the file. This holds for every separator, for empty fields in any position and for a last row with or without line end.",
 ["inputs", "configurations"], "every table up to the size bound over a set of representative fields, every raw text over separator/newline/field symbols, every header, all ways of giving the types",
 "tests use two fixed well-formed files", [PA + "csv.hpp", PA + "parser.hpp"],
 [("line and field scanning with offsets", PA + "csv.hpp CSVRow, CSV")], observe=["CSV::rows_amount/cols_amount/header/types", "CSV::data", "CSVRow"])
prop("C04", "Label encoding re-expresses a dataset without losing or moving data",
 "For every dataset a parser offers, one-hot encoding replaces each label column by one column per distinct class, exactly one of which is 1 for every entry and identifies the entry's class, and leaves every input value in its entry and in the order of the input columns; default encoding leaves the data unchanged. The reported feature size and label indices are those of the encoded data.",
 ["inputs", "configurations"], "every assignment of label columns (any subset and position) and every small class table, including one class and non-contiguous class values",
 "tests use label columns in the last position only", [PA + "parser.hpp", DA + "dataset.hpp"],
 [("class maps and column remapping", PA + "parser.hpp DatasetParser::data_to_encoding")], observe=["DatasetParser::data_to_encoding/encoding_feature_size/encoding_labels_idx", "Dataset::parse"])
prop("C05", "Damaged MNIST/CIFAR files are rejected, never read as data",
 "Opening a MNIST image/label pair with a truncated header, a wrong magic number, a wrong image shape or different image and label counts is an error, and so is reading a record that a MNIST or CIFAR file does not completely contain (a missing file is reported at the latest when a record is read). No dataset read returns values that are not in the file. Undamaged files are accepted with the sizes they declare.",
 ["fault_sequences", "inputs"], "every truncation length and every single-byte corruption of the header of small valid files, every record index, for labels and images, both formats",
 "tests open only intact files plus a few wrong paths", [PA + "mnist.hpp", PA + "cifar.hpp"],
 [("header validation on construction", PA + "mnist.hpp MnistImages/MnistLabels"), ("record bounds", PA + "cifar.hpp")], observe=["constructors, operator[], size()"])
prop("C06", "MNIST records are read exactly and independently of earlier reads",
 "Every image and label returned from a MNIST file pair is byte-for-byte the addressed record (pixels in row-major order, big-endian dimensions), whatever was read before, in whichever order and through whichever iterator, and again after a failed read. The dataset view lists every entry once, pixels then label, in file order.",
 ["histories", "inputs"], "every operation program up to the depth bound over files of every small dimension with position-distinguishing pixels",
 "tests read a few records of two fixed files in order", [PA + "mnist.hpp"],
 [("seek to header + index * record size", PA + "mnist.hpp")], state=[("stream position and error flags", "persist between reads", PA + "mnist.hpp")], observe=["Mnist, MnistImages, MnistLabels, MnistImage"])
prop("C07", "CIFAR records, labels and channel orders are read exactly",
 "Every CIFAR-10/100 record read returns the addressed record's label(s) and pixels, independently of earlier reads; the planar and the row-column-channel order hold the same three channel values at the documented positions, and the perceived brightness used to render a picture stays within the range of a pixel.",
 ["histories", "inputs"], "every read program up to the depth bound over files with position-distinguishing bytes; every channel order; every label value",
 "tests read a few records of one fixed file", [PA + "cifar.hpp"],
 [("record seek and channel remapping", PA + "cifar.hpp")], observe=["Cifar, CifarImage"])
prop("C08", "JSON written by the library reads back as the same document",
 "For every document the library can hold (nested objects and lists, strings without quotes, numbers, booleans, empty strings, empty lists and objects), writing it and reading it back gives an equal document with the same key order and leaf types, and consumes exactly its own text. Reading arbitrary text either gives the document it spells (values end at a separator, the last of repeated keys counts) or reports an error, as for a document cut short or nested beyond the limit; it never crashes or runs forever.",
 ["inputs", "programs"], "every document tree up to the size bound; every text up to the length bound over JSON's structural symbols; every truncation and one-byte change of a set of documents",
 "tests cover a handful of documents", [PA + "json.hpp"],
 [("recursive-descent stream reader and writer", PA + "json.hpp operator>>, operator<<")], observe=["Json stream operators", "JsonItem accessors"])
prop("C09", "JSON documents behave like values under any sequence of edits",
 "After any sequence of assignments, key and index accesses, appends, copies and moves, every JSON object, list and item holds exactly what a plain ordered map/list model of the same edits holds; copies are independent of the original. Accessing an absent key or index, or an item as a kind it is not, is reported as an error and changes nothing.",
 ["histories", "programs"], "every edit program up to the depth bound over all edit operations",
 "tests apply a few fixed edits; aliasing and ownership bugs need particular sequences", [PA + "json.hpp"],
 [("owning pointers with deep copy", PA + "json.hpp JsonItem/JsonDict/JsonList/JsonObject")], observe=["JsonItem, JsonDict, JsonList, JsonObject"])
prop("C10", "A dataset's shape, entries and sequences describe its data exactly",
 "For every flat, matrix or cube input, feature size, sequence size and label set, the dataset keeps the longest whole number of sequences, reports consistent sizes, and each entry, sequence, input part and label part is exactly the corresponding slice of the given data; label indices outside the features are ignored and out-of-range reads give empty results. Changing sequence size or label set keeps all of this true.",
 ["inputs", "configurations", "histories"], "every combination of small sizes for the three constructors, every label set, every later change of sequence size and label set",
 "tests use a few fixed shapes whose sizes divide evenly", [DA + "dataset.hpp"],
 [("derived size bookkeeping", DA + "dataset.hpp constructors, sequence_size, label_idx")], observe=["Dataset accessors"])
prop("C11", "Splitting a dataset partitions it",
 "Splitting at any percentage gives a training and a testing part which together are the dataset's entries, each once and in order, cut at a sequence boundary, with the same feature size, sequence size and labels; a sub-range is exactly that range, and inputs/labels views hold exactly the input and label columns. An empty or degenerate dataset splits into empty parts.",
 ["inputs", "configurations"], "every small dataset shape x every percentage on a grid including out-of-range ones x every range",
 "tests use a few shapes and percentages", [DA + "dataset.hpp"], [("index arithmetic on percentages", DA + "dataset.hpp split/subdata/inputs/labels")],
 observe=["Dataset::split/subdata/inputs/labels"])
prop("C12", "Shuffle, normalisation and concatenation keep every entry intact",
 "Shuffling permutes whole entries (nothing lost, duplicated or torn) and is a function of the generator state; min-max normalisation maps each selected column affinely onto [0,1] and leaves the rest alone, giving finite values for finite data, and refuses columns the dataset does not have; concatenation along entries, sequences or features places every value of both datasets at its documented position and rejects incompatible shapes.",
 ["inputs", "configurations"], "every small dataset shape, every generator seed in range, every column subset, every axis and pair of shapes",
 "tests use a few fixed shapes and do not check that rows stay whole", [DA + "dataset.hpp", DN + "dlmath.hpp"],
 [("index permutation and strided copies", DA + "dataset.hpp shuffle/min_max_normalization/concatenate")], observe=["Dataset::shuffle/min_max_normalization/concatenate"])
prop("C13", "Tensor reshaping primitives move every element to its defined place",
 "For every shape and axis, concatenating, separating, appending and extracting 3-D blocks, and transposing and multiplying matrices put each element exactly where the index formula says; separating undoes concatenating. Nothing outside the destination is written.",
 ["inputs", "configurations"], "every pair of 3-D shapes with sides up to the bound, every axis; every matrix size up to the bound",
 "tests use a few shapes", [DN + "dlmath.hpp"], [("strided loops", DN + "dlmath.hpp concatenate/separate/append/extract/matarr_mul")], observe=["DLMath functions"])
prop("C14", "Convolution and pooling outputs equal their definitions for every geometry",
 "For every input size, channel count, kernel size, stride and padding, the output has the size given by the standard formula and each output value is the defined sum (plus bias), average or maximum over its window. Inputs and parameters are left unchanged, and nothing outside the buffers is read or written.",
 ["inputs", "configurations"], "every geometry up to the bound with element-distinguishing values",
 "tests use a few hand-computed geometries", [DN + "dlmath.hpp", DN + "convolutional.cpp", DN + "pooling.cpp", DN + "max_pooling.cpp", DN + "avg_pooling.cpp"],
 [("kernel slides", DN + "dlmath.hpp cross_correlation/kernel_slide")], observe=["ConvolutionalLayer, MaxPoolingLayer, AvgPoolingLayer forward"])
prop("C15", "Element-wise math, activations and losses equal their definitions",
 "For every argument vector, each activation, loss and vector operation returns the value of its mathematical definition in every element, in place or not, and the derivative functions return the derivative of the same function. Softmax and cross-entropy stay finite for finite inputs of any magnitude in range.",
 ["inputs"], "every vector up to the length bound over a value lattice including signed zeros, equal elements and large magnitudes; every alias of source and destination",
 "tests sample a few vectors", [DN + "dlmath.hpp", DN + "activation.cpp"], [("formulas", DN + "dlmath.hpp")], observe=["DLMath functions, activation layers"])
prop("C16", "Backward passes compute the true gradient",
 "For every layer type, shape and smooth input point, the input gradient and the parameter gradients produced by a backward pass equal the derivatives of the layer's own forward pass contracted with the incoming gradient. This holds through every composition of layers in a sequential or branching network up to the loss.",
 ["inputs", "programs", "configurations"], "every layer geometry up to the bound and every layer chain up to the depth bound, every output coordinate as the incoming gradient",
 "tests check a few hand-computed gradients; pooling and convolution gradients are not checked at all", [DN + "dense.cpp", DN + "convolutional.cpp", DN + "activation.cpp", DN + "max_pooling.cpp", DN + "avg_pooling.cpp", DN + "dropout.cpp", DN + "mse_loss.cpp", DN + "cce_loss.cpp"],
 [("reverse-mode rules", "source/dnn/*.cpp backward")], observe=["Layer::backward, Model::step"])
prop("C17", "Gradients accumulate, and optimizers apply exactly their update rule",
 "Over any history of training steps, resets and optimizer updates, each parameter equals what the documented rule (gradient descent, Adam) gives for the sum of the gradients of the steps since the last update, each parameter being treated independently and no layer inheriting another layer's history; an update clears the gradients it has used and touches nothing else.",
 ["histories"], "every program up to the depth bound of steps on different samples, gradient resets and updates, for several models and rates",
 "tests check convergence, or one update", [DN + "gd_optimizer.cpp", DN + "adam_optimizer.cpp", DN + "optimizer.cpp", DN + "model.cpp", DN + "dense.cpp"],
 [("gradient buffers and optimizer state", DN + "optimizer.cpp train")], state=[("moments", "Adam first/second moment", DN + "adam_optimizer.hpp")], observe=["Optimizer::train, Layer::param/gradient"])
prop("C18", "The layer graph runs every layer once, after everything it depends on",
 "For every sequence of arc insertions, the forward and backward neighbour lists, the input/output layers and the layer lists are exactly those of the resulting graph, and arcs naming unknown nodes are rejected. The forward and backward runs list every arc between reached layers exactly once, each layer after everything it depends on whenever the graph is acyclic, and end on cyclic, self and duplicate arcs. Executing a model whose layers each have one predecessor computes the composition of its layers for every order of insertion.",
 ["programs", "histories"], "every arc-insertion program over up to 4-5 nodes",
 "tests build two or three graphs", [DN + "dlgraph.cpp", DN + "model.cpp"], [("adjacency lists and traversal order", DN + "dlgraph.cpp")], observe=["DLGraph, Model::step/predict"])
prop("C19", "Dumping and loading a model reproduces it",
 "For every supported architecture and parameter values, a model dumped to JSON and loaded again (also through the text form and a file, into a model whose layers have other sizes) has the same layers, shapes, connections and parameters up to the decimal precision of the text, and computes the same outputs. A document lacking a required part, or naming other layer types than the model that loads it, is rejected with an error.",
 ["inputs", "configurations", "fault_sequences"], "every architecture up to the bound; every single-field removal of a dumped document",
 "tests dump/load single layers with default values", [DN + "model.cpp", DN + "layer.cpp", DN + "dense.cpp", DN + "activation.cpp", PA + "json.hpp"],
 [("per-layer dump/load", "source/dnn/*.cpp dump/load")], observe=["Model::dump/load, Layer::dump/load"])
prop("C20", "Copies of a model share weights but never gradients or activations",
 "A copy of a model computes the same outputs and lists exactly its own layers; training steps on one copy never change the gradients or activations of another, while a parameter update made through either is seen by both as documented. Destroying or reassigning any copy leaves the others usable.",
 ["histories"], "every program up to the depth bound over copies, assignments, steps, updates and destructions of two or three models",
 "tests copy once and check a few fields", [DN + "model.cpp", DN + "layer.cpp", DN + "dlgraph.cpp", DN + "dense.cpp"],
 [("shared parameter vectors, private gradients", DN + "layer.cpp")], observe=["Model copy/assign"])
prop("C21", "Parallel training is race-free and independent of the schedule",
 "For every schedule of the worker tasks, training with the thread-parallel policies (any batch size from one on) performs no conflicting unsynchronised accesses, always terminates, and leaves exactly the parameters that a sequential execution of the same policy leaves.",
 ["schedules", "configurations"], "every order in which the scheduler can run, overlap and complete the enqueued tasks, for each parallelism level, batch size and dataset size up to the bound",
 "tests run whatever schedule the machine happens to give and only look at the loss", [MI + "definitions.hpp", MI + "fnn.hpp", MI + "nn.hpp", DN + "model.cpp"],
 [("one model clone per task, update after join", MI + "fnn.hpp Training")], observe=["parameters after training"])
prop("C22", "Multi-threaded dense operations equal the sequential ones in every schedule",
 "For every shape and number of workers, the thread-parallel forward and backward dense operations return the sequential result in every schedule of their tasks, without conflicting unsynchronised accesses, and every task has finished before the operation returns.",
 ["schedules", "configurations"], "every task order at every scheduling point for every shape and worker count up to the bound",
 "tests run one schedule on one shape", [DN + "dlmath.hpp", DN + "dense.cpp"], [("partition into row blocks", DN + "dlmath.hpp *_thread_opt")], observe=["DLMath thread variants"])
prop("C23", "Prediction is a function of the weights and the input",
 "Predicting with a model gives the same output for the same input whatever predictions and training steps without update happened before, also with dropout layers (which pass their input through unchanged at inference), and does not change parameters or gradients.",
 ["histories"], "every program up to the depth bound of predictions and steps on different inputs for models of every layer kind",
 "tests predict once or twice on fresh models", [DN + "model.cpp", DN + "dropout.cpp", DN + "dlgraph.cpp", MI + "fnn.hpp"], [("inference mode forward", DN + "model.cpp predict")], observe=["Model::predict, FNN predict"])
prop("C24", "Network training follows the dataset: every sample, every epoch, reproducibly",
 "Fitting a network without dropout is reproducible for a given seed and starts over from that seed at each call, and for every dataset size, batch size (from one on), policy and number of epochs performs one step per sample per epoch in dataset order and one update per batch (the last one possibly shorter, scaled like a full one); the result equals doing so by hand. Prediction and evaluation use the input part of each entry and return one row per entry, with the metric's defined value.",
 ["configurations", "inputs", "histories"], "every dataset size, batch size, epoch count and label position up to the bound",
 "tests look at the final loss of one configuration", [MI + "fnn.hpp", MI + "nn.hpp", MI + "definitions.hpp", DN + "model.cpp"], [("epoch and batch loops", MI + "fnn.hpp")], observe=["FNN fit/predict/evaluate/calculate_loss"])
prop("C25", "Recurrent layers compute the unrolled recurrence and its gradient",
 "For every input size, hidden size, output size, hidden activation and number of time steps, the recurrent layer's outputs are those of the recurrence applied step by step from the given hidden state, and its backward pass is the gradient of that computation. Successive calls are independent except through the documented hidden state; a hidden state of the wrong length is rejected.",
 ["configurations", "inputs", "histories"], "every small geometry and time-step count, every incoming gradient coordinate",
 "tests compare with one hand-computed case", [DN + "recurrent.cpp"], [("back-propagation through time", DN + "recurrent.cpp")], observe=["RecurrentLayer"])
prop("C26", "Out-of-range and mismatched uses of layers are rejected, valid ones never are",
 "Parameter and gradient access by index works for exactly the indices below the parameter count and addresses each parameter once; access beyond it, updating or loading a layer from one of another kind or size, predicting without an output layer, arcs between unknown layers and losses without a target are reported as errors and leave the layer unchanged. Parameter initialisation depends only on the distribution, layer size and generator state, and stays within the distribution's bounds; a layer reports and prints the kind, name, shapes and parameters it has.",
 ["inputs", "configurations"], "every layer type, geometry and index up to the bound; every pair of sizes; a range of seeds",
 "tests probe a few indices", [DN + "layer.cpp", DN + "dense.cpp", DN + "convolutional.cpp", DN + "recurrent.cpp", DN + "model.cpp"], [("index checks", "source/dnn/*.cpp param/gradient")], observe=["Layer::param/gradient/param_size, init"])
prop("C27", "A network built from layer descriptors is exactly the layers they list",
 "For every sequence of layer descriptors (input, dense, convolution, pooling, dropout, each with any activation), the network built from it has the input and output sizes that follow from the described shapes and computes the composition of the described layers, whichever of the network classes is used. Settings and descriptors hold what was last put into them, and an input layer that is not the first, or training without layers or before compilation, is refused without changing the network.",
 ["programs", "configurations", "histories"], "every descriptor chain up to the depth bound over every layer kind and activation, every edit program on settings, every call sequence on run-time networks",
 "tests build one or two fixed chains", [MI + "fnn.hpp", MI + "nn.hpp", MI + "layer_descriptor.cpp", MI + "layer_descriptor.hpp", MI + "definitions.hpp"],
 [("shape propagation from descriptor to descriptor", MI + "fnn.hpp add/_add_layer/_add_activation_layer")], observe=["EdgeFeedforwardNeuralNetwork, FeedforwardNeuralNetwork, DynamicFeedforwardNeuralNetwork, LayerSetting, LayerDescriptor"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))

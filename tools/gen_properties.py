#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLSHAPES = "Tests use one or two fixed 3x3 / 2x3 matrices; the guarantee is over every shape and every cell value."
# ---------------------------------------------------------------- matrices
prop("M01", "Element-wise matrix arithmetic is correct in every cell",
 "Adding or subtracting two equally shaped matrices, negating a matrix, and adding, multiplying by or raising to a scalar yield a matrix of the operand's shape whose every cell is the (real-number) operation applied to the corresponding operand cell(s).",
 ["inputs"], "every non-empty rectangular shape, every cell value, every scalar (real arithmetic, rounding aside)",
 ALLSHAPES, ["matrix.go"], [("element-wise loops", "matrix.go Add/Sub/Neg/AddScalar/MulScalar/PowScalar")])
prop("M02", "Matrix product, transpose and axis sums are correct in every cell",
 "The product of an r-by-n and an n-by-c matrix is the r-by-c matrix of inner products, the transpose swaps the two indices of every cell, and summing along axis 0 (axis 1) returns a single row holding the total of every column (row).",
 ["inputs"], "every pair of compatible non-empty shapes and every cell value (real arithmetic)",
 "Tests multiply by an identity matrix and sum one 2x3 matrix; a wrong bound or index on another shape is invisible.", ["matrix.go"],
 [("triple loop", "matrix.go Dot"), ("row/column copy", "matrix.go T"), ("axis loops", "matrix.go Sum")])
prop("M03", "Matrix operations leave operands alone and own their result",
 "Element-wise, scalar, product, transpose, axis-sum and comparison operations never change any cell or dimension of their operands, and the matrix they return shares no storage with an operand, so later writes to one are never seen in the other.",
 ["inputs", "histories"], "every operand (also the same matrix passed twice) and every later write to operand or result",
 "No test looks at an operand after the operation or writes to a result.", ["matrix.go"],
 [("fresh result allocated per operation", "matrix.go"),])
prop("M04", "Bad shapes and bad indices are errors, never panics or partial writes",
 "Creating a matrix with a non-positive dimension, reading or writing a cell, row or column with an index that is negative or not below the dimension, writing a row or column of the wrong length, and adding, subtracting or multiplying incompatible shapes each return an error, never panic, and leave every matrix involved unchanged; in all other cases no error is returned.",
 ["inputs"], "every matrix, every integer index (negative included), every slice length, every pair of shapes",
 "Tests only use valid indices and matching shapes.", ["matrix.go"],
 [("guards before the access", "matrix.go Get/Set/GetRow/GetColumn/SetRow/SetColumn/Add/Sub/Dot/NewMatrix")])
prop("M05", "Every matrix built is rectangular and matches its declared size",
 "Whenever a matrix is successfully created, from dimensions or from a slice of rows, or returned by a matrix operation, it has at least one row and column, as many stored rows as its row count and exactly its column count of cells in each row; empty or ragged row slices are refused with an error.",
 ["inputs"], "every requested size and every slice of rows",
 "Tests build matrices from well-formed literals only.", ["matrix.go"],
 [("allocation", "matrix.go NewMatrix"), ("validation", "matrix.go NewMatrixFromSlice")],
 [("Rows/Cols/M", "declared dimensions and row storage", "matrix.go Matrix")])
prop("M06", "Cell, row and column access touches exactly what was named",
 "Reading a cell, row or column returns exactly the stored values of that cell, row or column; writing one stores exactly the given values there and changes no other cell.",
 ["inputs"], "every non-empty shape, every valid index, every value",
 "One 3x3 example; a swapped index on a square matrix or a stray write elsewhere passes.", ["matrix.go"],
 [("accessors", "matrix.go Get/Set/GetRow/GetColumn/SetRow/SetColumn")])
prop("M07", "Matrix equality means same shape and same cells",
 "Comparing two matrices answers true exactly when they have the same number of rows and columns and every pair of corresponding cells is equal, and never panics.",
 ["inputs"], "every pair of shapes and cell values (NaN aside)",
 "Equality is only used positively by tests.", ["matrix.go"], [("double loop", "matrix.go Equals")])
prop("M08", "Copies and clipped matrices are exact and independent of the original",
 "Copying a matrix gives a matrix of the same shape and cells in storage of its own, so that later changes to one never show in the other; clipping one gives a matrix of the same shape in storage of its own whose cells are those of the original limited to [1e-7, 1-1e-7]; neither changes the original.",
 ["inputs", "histories"], "every shape and cell value (NaN aside)",
 "No test calls either; sharing shows only through later writes.", ["matrix.go"], [("Copy, Clip", "matrix.go")])
# ---------------------------------------------------------------- layers
prop("L01", "Each layer outputs its activation of XW+B for every sample",
 "For a batch of any size, the forward pass of a linear, ReLU, sigmoid, leaky-ReLU or softmax layer (and of a dropout layer with dropout off) returns a matrix with one row per sample and one column per output unit holding, respectively, z, max(z,0), 1/(1+e^-z), z or slope*z for negative z, e^z over the row total of e^z, and max(z,0), where z is the product of the input with the weights plus the unit's bias.",
 ["inputs"], "every batch size, layer size, input, weight, bias and slope >= 0 (real arithmetic)",
 "Layer tests only log outputs; nothing is asserted.", ["network.go", "activation.go", "matrix.go"],
 [("forward passes", "network.go *.Forward, ForwardNoDropout"), ("activations", "activation.go")])
prop("L02", "Each layer's backward pass is the exact gradient of its forward pass",
 "After a forward pass on an input, the backward pass of any layer type for that input and an upstream gradient returns exactly the derivatives of (upstream gradient times output, summed) with respect to the weights, the biases and the input, with the shapes of the weights, biases and input; at the kink of a ReLU either one-sided derivative may be used.",
 ["inputs", "histories"], "every layer type, layer size (inputs more, fewer or as many as outputs), batch size, input, parameter and upstream gradient (real arithmetic)",
 "Tests log gradients for one 3-to-5 layer and assert nothing; wrong gradients still train toy data.", ["network.go", "activation.go"],
 [("backward passes", "network.go *.Backward"), ("derivatives", "activation.go *Prime")],
 [("reluInputs, binaryMask, outputs", "values cached by the forward pass", "network.go")])
prop("L03", "Layer passes modify neither the caller's matrices nor the parameters",
 "The forward and backward passes of every layer type never change any cell or dimension of the input or upstream-gradient matrices given to them, nor of the layer's weights and biases, nor its sizes and settings.",
 ["inputs", "histories"], "every layer type, every input and gradient",
 "No test re-reads an input or parameter after a pass.", ["network.go", "activation.go"],
 [("activations work on their own copy", "activation.go"), ("passes", "network.go")])
prop("L04", "Dropout keeps, rescales and masks consistently",
 "In a training pass with dropout rate d, every unit of every sample independently draws whether it is kept, with probability 1-d, a kept unit outputs its ReLU value divided by 1-d and a dropped one outputs zero (also when d is 1), and the next backward pass multiplies each gradient by exactly the same factor; draws come from a generator seeded anew rather than from a fixed sequence.",
 ["inputs", "histories"], "every rate in [0,1], every batch and layer size, every random draw",
 "The only dropout test logs its output.", ["network.go", "binomial.go"],
 [("mask", "network.go DropoutLayer.Forward/Backward"), ("Bernoulli draw", "binomial.go")])
prop("L05", "Softmax never overflows and yields a distribution per sample",
 "For every finite input the softmax activation exponentiates only non-positive numbers and divides by a total of at least one, so each output row consists of finite non-negative numbers that sum to one.",
 ["inputs"], "every row width >= 1 and every finite logit, however large",
 "Tests use small logits only.", ["activation.go"], [("shifted exponentials", "activation.go Softmax")])
prop("L06", "The fused softmax cross-entropy gradient equals the two-step gradient",
 "For one-hot targets, the combined softmax/cross-entropy backward pass returns the same weight, bias and input gradients as differentiating the batch-average cross-entropy of the softmax layer's outputs.",
 ["inputs"], "every batch and layer size, every one-hot target (real arithmetic)",
 "The test logs one sample with batch size one, where a missing batch average cannot show.", ["network.go", "loss.go"],
 [("fused pass", "network.go SoftmaxLayer.BackwardCrossEntropy")])
prop("L07", "Layers refuse inputs and gradients of the wrong width",
 "For every layer type, a forward pass whose input width differs from the layer's input size, or a backward pass whose input width or gradient width differs from the layer's input or output size or whose input and gradient have different numbers of samples, returns an error rather than panicking or producing numbers; matching shapes are accepted without error.",
 ["inputs"], "every layer type and every non-empty shape of input and gradient after a forward pass on that input",
 "No test feeds a mismatched shape.", ["network.go"], [("guards", "network.go *.Forward/*.Backward")])
prop("L08", "Initialisation draws every weight afresh with He scaling",
 "Initialising a layer assigns every weight its own draw from a standard normal distribution multiplied by sqrt(2 / number of inputs), using a generator seeded anew at each initialisation, and changes no bias, size or setting.",
 ["inputs"], "every layer type and size",
 "Tests never look at initial weights.", ["network.go"], [("Init", "network.go *.Init")])
prop("L09", "Constructors refuse invalid settings and keep valid ones",
 "Creating a layer or loss with a size below one, a leaky layer with a negative slope, a dropout layer with a rate outside [0,1], or an optimizer with a learning rate that is not positive or with negative decay or momentum returns an error; otherwise it succeeds and the object holds exactly the given settings, with zeroed weights (inputs by outputs) and biases (one row of outputs) for layers.",
 ["inputs"], "every argument value",
 "Tests only construct valid objects.", ["network.go", "loss.go", "optimizers.go"], [("New* constructors", "network.go, loss.go, optimizers.go")])
prop("L10", "Activation functions and their gradients compute their formula in a new matrix",
 "Called on their own with matrices of any shape, RELU gives max(x,0), Sigmoid 1/(1+e^-x), LeakyRELU x or slope*x for negative x, and Softmax e^x over its row's total of e^x for every cell; RELUPrime(g, x), LeakyRELUPrime(g, x, slope) and SigmoidPrime(x, g) give the upstream gradient g times the derivative of the activation at x (either one-sided derivative at zero). Each returns a new matrix of the argument's shape and changes no argument.",
 ["inputs"], "every shape, cell value and slope >= 0 (real arithmetic)",
 "No test calls them directly; in-place computation shows only in the caller's matrix afterwards.", ["activation.go", "matrix.go"], [("activation functions", "activation.go")])
# ---------------------------------------------------------------- losses
prop("S01", "Each loss value averages over the whole batch",
 "For predictions and targets of equal shape, the mean squared (absolute) loss is the average over all samples and outputs of the squared (absolute) difference, the cross-entropy loss is the average over samples of minus the log of the probability given to the one-hot target class, and the binary cross-entropy loss is the average over samples and outputs of -(y log p + (1-y) log(1-p)), with probabilities limited to [1e-7, 1-1e-7].",
 ["inputs"], "every batch size, width, prediction and target (real arithmetic)",
 "Loss tests log values, and the squared/absolute ones use a single sample.", ["loss.go", "matrix.go"],
 [("forward passes", "loss.go *.Forward"), ("clipping", "matrix.go Clip")])
prop("S02", "Each loss gradient is the derivative of the loss it belongs to",
 "For predictions and targets of equal shape, the gradient returned by every loss has the shape of the predictions and each cell is the derivative of the reported loss value with respect to that prediction (predictions strictly inside the clipping limits and one-hot targets for cross-entropy; zero at equality for absolute loss).",
 ["inputs"], "every batch size, width, prediction and target (real arithmetic)",
 "Gradients are only logged; an integer division that zeroes one still passes.", ["loss.go"], [("backward passes", "loss.go *.Backward")])
prop("S03", "Cross-entropy losses and gradients stay finite for all probabilities",
 "For predictions anywhere in [0,1], including exactly 0 and 1, the cross-entropy and binary cross-entropy losses take logarithms only of positive numbers and their gradients divide only by nonzero numbers, given one-hot (binary) targets.",
 ["inputs"], "every prediction in [0,1], every one-hot or 0/1 target, every shape",
 "Tests use interior probabilities.", ["loss.go", "matrix.go"], [("clipping", "matrix.go Clip")])
prop("S04", "Losses refuse mismatched shapes and do not modify their arguments",
 "Computing any loss or its gradient from predictions or targets whose width is not the loss's size, or whose numbers of samples differ, returns an error and never panics; equal shapes of that width give no error; and in no case is a prediction or target matrix changed.",
 ["inputs"], "every loss and every pair of non-empty shapes",
 "Tests use matching shapes and never re-read the predictions.", ["loss.go", "matrix.go"], [("guards", "loss.go")])
# ---------------------------------------------------------------- optimizers
prop("O01", "SGD follows its update rule at every step",
 "At step t (counted from zero per optimizer) SGD with learning rate r and decay k uses the rate r/(1+k*t); without momentum every weight and bias decreases by the rate times its gradient, and with momentum m every one is increased by its velocity, newly set to m times the old velocity (initially zero) minus the rate times its gradient.",
 ["inputs", "histories"], "every step number, hyperparameter, shape, parameter and gradient value (real arithmetic)",
 "Tests train a toy problem and check nothing.", ["optimizers.go"], [("Update", "optimizers.go SGDOptimizer.Update")],
 [("iterations, momentums, rate", "per-optimizer history", "optimizers.go SGDOptimizer")])
prop("O02", "Adam follows its update rule at every step",
 "At step t (from zero) Adam with rate r, decay k keeps first and second moment averages of every weight's and bias's gradient with factors beta1 and beta2 (initially zero), divides them by 1-beta1^(t+1) and 1-beta2^(t+1) respectively, and changes each parameter by minus r/(1+k*t) times the corrected first moment over (the root of the corrected second moment plus epsilon).",
 ["inputs", "histories"], "every step number, hyperparameter, shape, parameter and gradient value (real arithmetic)",
 "Tests train toy data and log the loss; a wrong bias correction still trains.", ["optimizers.go"], [("Update", "optimizers.go AdamOptimizer.Update")],
 [("iterations, momentums, caches", "per-optimizer history", "optimizers.go AdamOptimizer")])
prop("O03", "A mismatched gradient is refused and changes no parameter",
 "Applying either optimizer to gradients whose shape differs from the weights' or biases' returns an error, never panics, and leaves the weights, the biases and the optimizer's step count, velocities and moments exactly as they were; matching shapes give no error.",
 ["inputs", "histories"], "every optimizer, configuration, step and combination of shapes",
 "No test passes mismatched gradients.", ["optimizers.go"], [("Update", "optimizers.go *.Update")])
prop("O04", "Optimizers built from a type and values are complete and fresh",
 "Building an optimizer from a type code and another optimizer's hyperparameters yields an optimizer of that type with identical hyperparameters, the same decay and momentum behaviour as one built by its constructor, and no history; unknown type codes are refused with an error.",
 ["inputs", "configurations"], "every optimizer type and hyperparameter value",
 "Only one Adam configuration is ever rebuilt by tests, and its settings are not compared.", ["optimizers.go", "model_data.go"],
 [("NewOptimizerFromType", "optimizers.go"), ("getValues/setValues", "optimizers.go")])
# ---------------------------------------------------------------- model
prop("T01", "Only layers that fit the chain are added to a model",
 "Adding a layer to a non-empty model succeeds exactly when its input size equals the model's current output size (the first layer always succeeds and sets the model's input size); success appends it last and makes its output size the model's, and refusal returns an error and leaves the model unchanged.",
 ["histories", "inputs"], "every sequence of additions and every layer size",
 "Tests only build matching chains.", ["model.go"], [("AddLayer", "model.go")], [("ModelSize, InputSize, OutputSize, Layers", "chain", "model.go Model")])
prop("T02", "Finalising validates first and gives each layer its own optimizer",
 "Finalising a model is refused with an error, leaving the model unchanged, when the loss size differs from the model's output size, the accuracy precision is negative or the accuracy type is unknown; otherwise the model records the loss, its type, the accuracy settings, the optimizer type and hyperparameters, and holds exactly one separate new optimizer per layer with those hyperparameters.",
 ["configurations", "inputs"], "every loss, optimizer, accuracy type and precision, and every number of layers",
 "Tests ignore its result and use valid settings.", ["model.go", "optimizers.go"], [("Finalize", "model.go")])
prop("T03", "A model's forward pass chains every layer once, in order",
 "A forward pass returns the input followed by one output per layer, each produced by running the next layer exactly once on the previous output, and stops with an error if a layer fails; dropout layers apply dropout only when training was requested.",
 ["inputs", "configurations"], "every number and mix of layers, every input, training on or off",
 "One three-layer chain without dropout is run, and its outputs are not compared.", ["model.go"], [("Forward", "model.go Model.Forward")])
prop("T04", "A model's backward pass chains gradients from the loss to the first layer",
 "A backward pass starts from the loss gradient at the final output (or, for a final softmax layer with cross-entropy loss, from the fused pass with that layer's input, the targets and its output), runs every layer exactly once from last to first with that layer's own forward input and the next layer's input gradient, returns one weight/bias gradient pair per layer in that order, and stops with an error if a step fails.",
 ["inputs", "configurations"], "every number and mix of layers and every loss",
 "Only errors are checked on one model.", ["model.go"], [("Backward", "model.go Model.Backward")])
prop("T05", "Each training epoch visits every sample exactly once with its own target",
 "In every epoch of training the batches are consecutive, non-overlapping, at most the batch size long, together cover all samples including a short last batch, and pair each input row with the target row of the same index; batch size zero means one batch of all samples.",
 ["inputs"], "every number of samples >= 1, every batch size >= 0, every epoch",
 "Tests use batch sizes that divide the sample count, or none.", ["model.go"], [("batch slicing", "model.go Fit")])
prop("T06", "Each batch updates every layer once with its own gradient and optimizer",
 "For every batch training runs one forward pass with dropout enabled, one backward pass on its outputs with the batch's targets, and then updates every layer exactly once, giving that layer's own weights and biases and its own gradients to the optimizer belonging to that layer; a failure at any step ends training with an error.",
 ["inputs", "configurations", "fault_sequences"], "every number of layers, batches and epochs, and every failing step",
 "Training tests only check that no error is returned.", ["model.go"], [("training loop", "model.go Fit")])
prop("T07", "Evaluation and prediction use no dropout and leave the model unchanged",
 "Computing loss, accuracy or a prediction runs the model's forward pass with dropout disabled and contains no random choice, and changes no weight, bias, optimizer or setting of the model and no cell of the data given to it.",
 ["inputs", "histories"], "every model and data set",
 "No test compares a model or data before and after evaluating it.", ["model.go", "loss.go", "misc.go", "accuracy.go", "network.go"],
 [("CalculateLoss/CalculateAccuracy/Predict", "model.go")])
prop("T08", "Loss, accuracy and prediction report the final layer's output",
 "The model's loss is its loss function applied to the final layer's output and the targets; accuracy and prediction use the final output with the metric selected by the model's accuracy type (regression: precision-based accuracy and raw outputs; categorical: categorical accuracy and row-wise best class; binary: binary accuracy and thresholded outputs); an unknown type is an error.",
 ["configurations", "inputs"], "every accuracy type, model and data set",
 "Predictions are never compared with anything.", ["model.go"], [("dispatch", "model.go CalculateLoss/CalculateAccuracy/Predict")])
prop("T09", "Impossible training requests are refused before any training",
 "Training with different numbers of input and target samples or with a negative batch size returns an error, without panicking and without changing any weight.",
 ["inputs"], "every combination of sample counts, batch size and epoch count",
 "Tests only train on valid requests.", ["model.go"], [("argument checks", "model.go Fit")])
prop("T10", "Initialising a model initialises every layer once",
 "Initialising the layers of a model, finalised or not and with any number of layers, initialises each layer exactly once, runs no pass and changes nothing else in the model.",
 ["inputs", "histories"], "every model and number of layers",
 "Tests build two layers and never look at the weights.", ["model.go"], [("loop over the layers", "model.go InitLayers")])
prop("T11", "Training reports loss and accuracy after every due epoch",
 "With a log interval n > 0, training writes to the information log, for exactly the epochs divisible by n and after the epoch's updates, one line with the epoch number and the loss and accuracy of the whole training data and, exactly if there are validation samples, one more with those of the whole validation data; with interval 0 it writes none.",
 ["inputs", "schedules"], "every number of epochs, interval, batch size and amount of data, all steps succeeding",
 "No test reads the log.", ["model.go"], [("reports", "model.go Fit")])
# ---------------------------------------------------------------- metrics
prop("A01", "Accuracy metrics count exactly the matching predictions",
 "Regression accuracy is the fraction of cells whose prediction is closer than the precision to the target, categorical accuracy is the fraction of samples whose target is one at the predicted best class, and binary accuracy is the fraction of cells whose 0.5-thresholded prediction equals the target.",
 ["inputs"], "every equal non-empty shape of predictions and targets, every precision",
 "One 2x2 example each.", ["accuracy.go", "misc.go"], [("counting loops", "accuracy.go")])
prop("A02", "Best-class and threshold outputs are right for every value",
 "The best-class function returns, for each row, the first index at which the row's largest value occurs, also when all values are zero or negative; the binary output function returns 1 for every value of at least 0.5 and 0 for every smaller one.",
 ["inputs"], "every shape and every real value",
 "Only rows with positive maxima are tested.", ["misc.go"], [("RowMax, OutputBinaryValues", "misc.go")])
prop("A03", "One-hot encoding marks exactly the label and refuses bad labels",
 "One-hot encoding a column of labels into a positive number of classes yields, per sample, a row with a one at the label's index and zeros elsewhere; a non-positive class count or a label that truncates to a number outside the classes returns an error and never panics.",
 ["inputs"], "every number of samples and classes, every label value",
 "One valid example is tested at a single cell.", ["misc.go"], [("SparseToOneHot", "misc.go")])
prop("A04", "Shuffling keeps every sample with its own target",
 "Shuffling a data set with equally many inputs and targets only exchanges rows, over the full range of samples, and applies every exchange to the inputs and the targets alike, so that each input row keeps its target row and none is lost or duplicated.",
 ["inputs", "histories"], "every data set and every sequence of random choices",
 "The test calls the function and checks nothing.", ["misc.go"], [("swap callback", "misc.go ShuffleDataset")])
prop("A05", "Metrics and output functions do not modify the predictions",
 "Computing any accuracy, best-class, thresholded or one-hot result, or clipping probabilities, never changes a cell of the matrices passed in, and a returned matrix shares no storage with them.",
 ["inputs", "histories"], "every matrix passed",
 "No test re-reads a prediction matrix afterwards.", ["accuracy.go", "misc.go", "matrix.go"], [("fresh results", "misc.go, matrix.go Clip")])
# ---------------------------------------------------------------- persistence
prop("D01", "Saving and loading a layer gives back the same layer",
 "For every layer type, encoding a layer and decoding the bytes yields a layer of the same type with equal input and output sizes, slope or dropout setting, and every weight and bias, and consumes exactly the bytes that were written.",
 ["inputs"], "every layer type, size up to 2^31-1, setting and parameter value",
 "One hidden layer is saved and loaded and only logged; other types are never tried.", ["layer_data.go", "network.go"],
 [("SerializeLayer / LoadLayer", "layer_data.go"), ("getValues", "network.go")])
prop("D02", "Saving and loading a model gives back the same model, or refuses",
 "For every finalised model, encoding either fails with an error or yields bytes from which decoding restores the same number, order and contents of layers, sizes, loss type, accuracy type and precision, optimizer type and every optimizer hyperparameter, with fresh optimizer history.",
 ["inputs", "configurations"], "every number of layers, mix of layer types, loss, optimizer and setting",
 "One three-layer Adam model is reloaded and only its loss computed, not compared.", ["model_data.go", "layer_data.go", "model.go", "optimizers.go"],
 [("Serialize / LoadModel", "model_data.go")])
prop("D03", "Malformed model or layer data gives an error, never a crash",
 "Decoding any byte sequence as a layer or model either succeeds or returns an error: it never panics, and never allocates storage for more parameters than the remaining bytes can hold.",
 ["inputs"], "every byte sequence (truncated, corrupted or hostile)",
 "Tests only decode freshly saved models.", ["layer_data.go", "model_data.go"], [("size and key-length reads", "layer_data.go loadLayerBuffer, model_data.go loadModelBuffer")])
prop("D04", "Saving the same model twice writes identical bytes",
 "The bytes written for a model are a function of the model alone: they do not depend on map iteration order, time or randomness.",
 ["inputs", "histories"], "every model and every run",
 "No test compares two saves.", ["model_data.go", "layer_data.go"], [("optimizer value order", "model_data.go Serialize")])
prop("D05", "A save that cannot be encoded leaves the existing file alone",
 "Saving to a file encodes the model completely before the target file is created or truncated, and reports success only after every encoded byte was written and the file was closed without error.",
 ["fault_sequences", "inputs"], "every model and every failing encode, create, write or close",
 "Tests save a valid model to a fresh file once.", ["model_data.go"], [("SaveFile", "model_data.go")])
prop("D06", "No read, write or decoding error is swallowed",
 "Whenever encoding, decoding, opening, reading or writing fails, or closing a file that was written fails, while a layer or model is saved or loaded or a log file is opened, the function that was called returns a non-nil error. Loading refuses data of a model whose accuracy type is unknown, whose accuracy precision is negative or whose layers do not fit together, and loading a file always decodes the file's complete contents.",
 ["fault_sequences"], "every failing step of every save and load",
 "No test makes any step fail.", ["layer_data.go", "model_data.go", "nn.go"], [("error returns", "layer_data.go, model_data.go, nn.go InitLogger")])
prop("D07", "Type codes identify layers, losses and optimizers one to one",
 "Every layer, loss and optimizer type reports its own distinct type code with its own sizes and settings, and each such code, and no other code, is decoded to an object of exactly that type; unknown codes are refused with an error.",
 ["configurations", "inputs"], "every layer, loss and optimizer type and every code value",
 "Only one layer type, loss and optimizer are ever reloaded.", ["layer_data.go", "model_data.go", "optimizers.go", "loss.go", "network.go"],
 [("type tables", "layer_data.go, model.go"), ("dispatch", "layer_data.go LoadLayer, model_data.go loadLoss/loadOptimizer")])
prop("D08", "The file format follows the published layout",
 "An encoded layer or model consists of exactly the fields of the published layout documents, in their order and with their byte sizes, all little-endian: magic, type or version, counts and sizes, settings, optimizer values as length-prefixed names with values, then weights and biases row by row.",
 ["inputs"], "every layer and model",
 "Round-trip tests cannot notice a layout change made on both sides.", ["layer_data.go", "model_data.go", "LayerData.md", "ModelData.md"],
 [("SerializeLayer", "layer_data.go"), ("Serialize", "model_data.go")])
# ---------------------------------------------------------------- package
prop("G01", "The library works without configuring logging",
 "No operation of the library fails or panics because logging was never configured: every logger it writes to exists from program start, and configuring logging only ever installs usable loggers, discarding output unless verbose or a file was asked for.",
 ["histories", "configurations"], "every call order, including never configuring logging, and every logging configuration",
 "Tests that reach a log call configure logging first.", ["nn.go", "model.go", "model_data.go"], [("logger variables", "nn.go")],
 [("InfoLogger, WarningLogger, ErrorLogger", "package loggers", "nn.go")])
prop("G02", "Independent models never interfere through shared state",
 "Apart from configuring logging, no operation writes package-level or process-global state (including reseeding or reconfiguring a shared random generator): everything an operation changes belongs to the objects passed to it or newly created by it, so separate models can be used from separate goroutines.",
 ["schedules", "histories"], "every interleaving of operations on disjoint objects",
 "Tests are sequential.", ["nn.go", "misc.go", "network.go", "binomial.go"], [("effect discipline", "all files")])
# ---------------------------------------------------------------- not decided statically
prop("N01", "Training reduces the loss on learnable data",
 "Fitting a sufficiently large model with suitable hyperparameters on learnable data lowers its loss and raises its accuracy.",
 ["inputs", "histories"], "every learnable data set, seed and hyperparameter choice",
 "Example tests log losses on three data sets.", ["model.go", "examples/iris_test.go"], [("Fit", "model.go")])
prop("N02", "Floating-point rounding stays within a small relative error",
 "All arithmetic results differ from their real-number values by at most a small multiple of machine precision times the problem size.",
 ["inputs"], "every finite input", "Tests compare a few exact small integers.", ["matrix.go"], [("float64 loops", "matrix.go")])
prop("N03", "A crash during saving leaves the old or the new file",
 "If the process or machine stops at any point during a save, the target file afterwards holds either the complete old or the complete new model.",
 ["crash_points"], "every crash point", "No test interrupts a save.", ["model_data.go"], [("SaveFile", "model_data.go")])
prop("N04", "Random draws are statistically sound",
 "Initial weights, dropout masks and shuffles are statistically independent and follow their stated distributions over runs.",
 ["histories"], "every run", "Nothing random is measured.", ["network.go", "binomial.go", "misc.go"], [("generators", "network.go, binomial.go, misc.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}})

T13 = "The 13 stable tests only exercise the broadcast helper and the Pow/Where operators on a handful of shapes."

prop("P01", "Inferring or profiling a node changes nothing but its outputs",
     "Running shape inference, value inference or cost profiling of any operator leaves the operator's input tensors (their shape, element type and data, weights included) and the operator's own attributes (everything set when the operator is built) exactly as they were. The only tensors it may write are its own outputs. An output never shares a mutable shape list with an input.",
     ["inputs", "programs"], "every registered operator, every model wiring (weights shared by several operators, tensors with several consumers), every call order and repetition of the inferences",
     T13 + " An in-place edit only shows when the same tensor or node is visited a second time with other data, which no test does.",
     ["onnx_tool/node.py", "onnx_tool/tensor.py"],
     [("operator inference methods", "onnx_tool/node.py: shape_infer / value_infer / profile / _profile_core of every *Node class and helpers they call"),
      ("tensor accessors that hand out fresh or shared data", "onnx_tool/tensor.py: Tensor.get_shape, Tensor.get_numpy, Tensor.shape")])

prop("P02", "A successful inference leaves every output with a shape and an element type",
     "Whenever shape inference or value inference of an operator returns without raising, the operator's first output has been given both a shape and an element type, on every path through it. Operators with further outputs the standard defines give those a shape and an element type too whenever the model asks for them.",
     ["inputs", "programs"], "every registered operator, every attribute setting, input count and input rank, every path to a normal return",
     T13 + " An early return or missing branch needs the one attribute/rank combination that reaches it.",
     ["onnx_tool/node.py"],
     [("operator inference methods", "onnx_tool/node.py: shape_infer / value_infer of every *Node class"),
      ("output setters", "onnx_tool/tensor.py: Tensor.update_shape / update_dtype / update_tensor")])

prop("P03", "Inferred output element types follow the ONNX standard",
     "The element type an operator's shape inference or value inference gives each output is the one the ONNX standard prescribes for it: that of the input bound to the same type, boolean for comparisons and logic, 64-bit integer for index-valued outputs, the type carried by the zero point, scale or fill value where the standard says so, and the requested type for casts. It never depends on an input the standard does not tie it to.",
     ["inputs", "programs"], "every registered standard operator, every combination of input element types",
     T13 + " Mixed-type inputs (integer indices beside float data, int8 zero points) are never inferred in a test.",
     ["onnx_tool/node.py"],
     [("element type decisions", "onnx_tool/node.py: update_dtype / update_tensor calls in shape_infer and value_infer"),
      ("frozen standard", "/verif/oracle/onnx_schema.json generated from onnx.defs")])

prop("P04", "An omitted attribute takes the default of the ONNX standard",
     "When a model leaves out an optional attribute of a standard operator, profiling, inference and the execution kernels use the value the ONNX standard defines for it, in a form the rest of the operator's code accepts. Attributes the standard leaves without a default mean 'not given' or the standard's derived neutral value (stride 1, dilation 1, padding 0).",
     ["inputs", "configurations"], "every standard operator with optional attributes, every subset of attributes present in the model",
     T13 + " Exporters usually write all attributes, so sample models rarely take a default.",
     ["onnx_tool/node.py", "inference/kernels.py"],
     [("default registration", "onnx_tool/node.py: add_default_value and getattr/hasattr fallbacks in *Node classes"),
      ("kernel defaults", "inference/kernels.py: attrs.get(name, default)")])

prop("P05", "Constant-folded values follow the operator's definition",
     "For elementwise, logical, comparison, reduction, matrix-product, selection, layout and cast operators, the value the value inference stores in the output is the operator's defining primitive applied to its inputs in the standard's operand order and with the operator's own attributes. Operands are not swapped, dropped or overwritten, and a variadic operator folds in every one of its inputs.",
     ["inputs"], "every input value, every element of the arrays, every number of inputs of the variadic operators",
     T13 + " Most operators' value inference runs in no test, and a sampled array cannot speak for all values.",
     ["onnx_tool/node.py"],
     [("value inference", "onnx_tool/node.py: value_infer of the elementwise/logical/reduction/layout operators")])

prop("P06", "Operation counts follow each operator's arithmetic",
     "The MAC count reported for an operator is the product the operator's arithmetic dictates: elements of the output times per-element cost for elementwise operators, output elements times the contracted extent for matrix products and convolutions (with the bias counted only when there is one), the input volume for reductions. The base cost reports output elements as moved activations and each weight input's elements exactly once as weights.",
     ["inputs", "configurations"], "every tensor shape, attribute value and optional-input combination of the operators in the confirmed table",
     "No stable test computes a MAC count; sampled models fix shapes at which a wrong extent often coincides with the right one (square matrices, equal channel counts).",
     ["onnx_tool/node.py"],
     [("cost functions", "onnx_tool/node.py: _profile_core / profile and op_mac / ratio of the operator classes")])

prop("P07", "Element-type conversions agree with each other and lose no data",
     "Translating a supported element type to its array type and back gives the same element type, no two supported element types share an array type, and sizes in bytes follow that same array type. Reading an initializer decodes each supported element type from the field in which the standard stores it, in packed and in typed form, and writing a tensor stores its own data, shape and element type.",
     ["inputs"], "every supported element type, both storage forms (raw bytes and typed field)",
     T13 + " Sample models store weights as raw float32, so the other types' typed fields are never read.",
     ["onnx_tool/tensor.py"],
     [("type tables", "onnx_tool/tensor.py: onnxdtype2npdtype / npdtype2onnxdtype"),
      ("decoder and encoder", "onnx_tool/tensor.py: tensorproto2ndarray, Tensor.make_tensor_proto, Tensor.make_value_proto, create_tensor")])

prop("P08", "Working on one model never changes how a later model is treated",
     "Loading, inferring, profiling, fusing, quantizing or saving one model changes no state that outlives the objects it was called on: shared configuration tables, registries, default arguments, architecture/device descriptions and the caller's own argument collections stay as they were. Analysing a second model therefore gives the same result whatever was analysed before.",
     ["histories", "configurations"], "every sequence of public calls in one process, any number of models, any options",
     "The stable tests build single operators in isolation; a leak needs two models in one process and an option set on the first.",
     ["onnx_tool/__init__.py", "onnx_tool/llm.py", "onnx_tool/utils.py", "onnx_tool/graph.py", "onnx_tool/fusion.py"],
     [("module-level tables", "onnx_tool/*.py: module-level dict/list/set objects, class attributes, default argument values"),
      ("all functions of the package", "onnx_tool/*.py")])

prop("P09", "Reports, graphs and files come out in the same order every run",
     "For the same model and options, the order of rows in a report, of operators, tensors and initializers in a graph or saved file, and of every list handed to the caller is determined by the model and the call, never by hash order. Repeating the analysis in another process therefore gives an identical result.",
     ["histories", "inputs"], "every model, every process (hash seed), every public operation producing an ordered result",
     "Hash order of strings changes per process while a test runs in one; none compares orders across processes.",
     ["onnx_tool/graph.py", "onnx_tool/model.py", "onnx_tool/fusion.py", "onnx_tool/utils.py", "onnx_tool/llm.py", "onnx_tool/serialization.py", "onnx_tool/quantization.py"],
     [("order-producing operations", "onnx_tool/*.py: iteration feeding tables, lists, dict insertion, files")])

prop("P10", "Internal calls and references always bind",
     "Every call the library makes to its own functions, methods and constructors passes arguments the callee accepts (all required ones, no unknown or surplus ones), and every name or module member it refers to exists. No public entry point can therefore fail because its pieces are wired together wrongly, on any branch.",
     ["inputs", "configurations"], "every call site and name reference in the package, on rarely taken branches as well",
     "Python binds calls only when executed; most branches (options, error handling, sub-graph extraction) run in no stable test.",
     ["onnx_tool/__init__.py", "onnx_tool/graph.py", "onnx_tool/fusion.py", "onnx_tool/llm.py", "onnx_tool/serialization.py", "onnx_tool/__main__.py"],
     [("call sites", "onnx_tool/*.py and inference/{memory_pool,infer,kernels}.py")])

prop("P11", "Profile totals are exactly the sum of the per-operator figures",
     "After profiling, the model's total MACs, parameters and memory each equal the sum of the figures stored on the profiled operators: every operator not excluded contributes once, none twice or never, on every path, and totals restart from zero on each profiling. The printed table lists every profiled operator with its own figures and prints those same totals; the shared-once parameter total counts each weight that has a consumer exactly once.",
     ["inputs", "histories", "configurations"], "every model, every exclusion list, repeated profiling, both metrics and all output formats",
     "No stable test profiles a graph.",
     ["onnx_tool/graph.py", "onnx_tool/llm.py"],
     [("accumulation", "onnx_tool/graph.py: Graph.profile, Graph.print_node_map"), ("LLM report", "onnx_tool/llm.py: Builder profile/print")])

prop("P12", "Inputs whose contents decide a shape are known as such",
     "If the shape inference of an operator reads the contents of an input (not just its shape), that input is recognised as shape-carrying for every number of inputs with which the operator can read it, so its value is computed before it is needed. The computation of the values of the operators feeding such an input is requested all the way back.",
     ["inputs", "programs"], "every registered operator and every arity at which it is used; every chain of operators computing a shape",
     "A wrong or missing table entry matters only for models that compute that particular input dynamically.",
     ["onnx_tool/graph.py", "onnx_tool/node.py"],
     [("shape-carrying table", "onnx_tool/graph.py: _SHAPE_TENSORS, _contains_shape_tensor, Graph.__find_shape_tensors__"),
      ("content reads", "onnx_tool/node.py: get_numpy/get_scalar/numpy reads in shape_infer")])

prop("P13", "Only operators with constant inputs are folded, and folding is complete",
     "An operator is treated as constant only if every one of its inputs is static, dequantization of weights is never folded away, and an operator found constant has all its outputs marked static before its consumers are examined, whichever mode is used. With folding on, the outputs have been computed before the operator is dropped. An operator producing an output of the model is never dropped, and what the remaining operators read from dropped ones is kept as initial value.",
     ["programs", "configurations"], "every graph, with constant folding on and off",
     "No stable test loads a graph.",
     ["onnx_tool/graph.py"],
     [("constant search", "onnx_tool/graph.py: Graph.__is_node_constant__, __constant_search__, __update_nodes_tensors__")])

prop("P14", "Questions asked of a model do not change it",
     "Querying, exporting, saving, ordering, planning memory, searching patterns, extracting a sub-graph or the compute graph, printing and serializing leave the model they are asked of unchanged: its operators, tensors, connectivity, inputs and outputs are the same afterwards. A graph handed out as separate can be restructured (operators added, removed or rewired) without restructuring the original.",
     ["histories", "programs"], "every model and every sequence of read-only operations",
     "None of these operations runs in a stable test.",
     ["onnx_tool/graph.py", "onnx_tool/fusion.py", "onnx_tool/serialization.py", "onnx_tool/__init__.py"],
     [("read-only operations", "onnx_tool/graph.py: get_compute_graph, get_subgraph, get_iotensors, make_graph_onnx, save_model, topsort_nodes, compress_memory, print_node_map, get_initials_from_nodenames, get_dynamic_tensors; fusion.py: FusionPattern.search_*; serialization.py: serialize_*")])

prop("P15", "Graph edits keep connectivity consistent",
     "After an operator is added, removed, bypassed or replaced by a fused one, the tensor-to-producer and tensor-to-consumer relations list exactly the operators that currently produce and consume each tensor, as lists of operator names, and name no removed operator. Operator links hold operators, never names, and every tensor an operator refers to is registered with the graph.",
     ["programs", "histories"], "every graph and every sequence of edits (fusion, quantization, bypass, removal, fixed-branch/fixed-k rewriting)",
     "No stable test edits a graph.",
     ["onnx_tool/graph.py", "onnx_tool/fusion.py", "onnx_tool/quantization.py"],
     [("edits", "onnx_tool/graph.py: remove_node, skip_node, fuse_subgraph_node_names, fuse_postop_node_names, __add_node_from_proto__, __remove_if__, __set_fixed_topk; fusion.py: *Fusion; quantization.py: graph_quantize")])

prop("P16", "A saved model carries everything the graph holds",
     "Saving writes each operator with its type, operator-set domain, name, inputs, outputs and all attributes, every constant it uses or outputs once, under its own name, with its element type, shape and data, unless a shape-only file was asked for. The interface is the graph's own inputs and outputs in order, plus, as inputs, the constants it uses that are written without data. The source model's version, operator sets and function definitions are carried over when the source is given.",
     ["inputs", "programs", "configurations"], "every graph, sub-graph selection and saving option",
     "No stable test saves a model.",
     ["onnx_tool/graph.py", "onnx_tool/node.py", "onnx_tool/model.py", "onnx_tool/tensor.py"],
     [("export", "onnx_tool/graph.py: save_model, make_graph_onnx, get_initials_from_nodenames, get_onnxgraph_by_nodenames; node.py: make_nodeproto; model.py: save_model")])

prop("P17", "Fusion only replaces what its pattern describes",
     "Every built-in fusion pattern is self-consistent: each internal connection is declared identically at both ends, between operators of the pattern, and attribute conditions are the comparisons they state. A group of operators is replaced only if it matches the whole pattern - operator types, connections at exactly the declared ports, attribute conditions - and no operator belongs to two matches. A result of the group that is used outside it or is a model output stays an output of the replacement; where the replacement cannot offer it (in-place fusion, folding a normalisation into a convolution) the group is left alone. Folding keeps the arithmetic of the normalisation per channel.",
     ["inputs", "programs"], "every model graph, every built-in pattern",
     "Fusion runs in no stable test, and a lost guard only shows on a graph in which an intermediate is also consumed elsewhere.",
     ["onnx_tool/fusion.py"],
     [("patterns", "onnx_tool/fusion.py: *_Pattern tables"), ("matching", "onnx_tool/fusion.py: FusionPattern, NodeCondition, AttrExpr"), ("weight folding", "onnx_tool/fusion.py: ConvBNFusion")])

prop("P18", "Live activation tensors never share planned memory",
     "In the activation memory plan two tensors that are both needed at some operator never overlap. A tensor is needed from the operator producing it (from the start for a model input) to the last operator consuming it (to the end for a model output, even when operators inside also consume it). Every block is at least the tensor's size rounded up to the requested alignment, the reported total covers every block, and weights are left out of the plan.",
     ["inputs", "programs"], "every graph, including tensors consumed several times or by the same operator twice, unused results and outputs also consumed inside; the check enumerates small graphs covering these lifetime patterns with symbolic sizes",
     "No stable test plans memory.",
     ["onnx_tool/graph.py"],
     [("planner", "onnx_tool/graph.py: Graph.compress_memory")])

prop("P19", "The runtime memory pool never hands out memory outside itself",
     "Every tensor view requested from the memory pool starts at the planned place of its tensor in the buffer the pool owns at that moment, spans exactly the elements of the requested shape, stays inside the tensor's planned block and has the pool's element type and the requested shape. Tensors without a plan, shapes that do not fit and negative dimensions are rejected, and so are plans whose blocks leave the pool. After the pool has moved to another device its buffer and every later view are there; filling a tensor writes inside its block only, from its first element.",
     ["inputs", "histories"], "every memory plan, tensor shape, shape update and device move",
     "The inference runtime has no stable tests.",
     ["inference/memory_pool.py"],
     [("pool", "inference/memory_pool.py: MemoryPool")])

prop("P20", "Execution kernels compute their operator into every output and change no input",
     "Each registered execution kernel, given input and output buffers of the operator's shapes, either raises or writes into every element of every output exactly what the ONNX operator (or the fused operator it is registered for) defines from its inputs and attributes, and leaves its inputs as they were; the key/value cache of the attention kernel is the only input a kernel may update, and only at the positions appended. Outputs count whatever stale data they held before the call. Two-dimensional NCHW windows are covered for convolution and pooling, nearest by whole factors and half-pixel or align_corners linear for Resize, and the opset 13 meaning of Softmax.",
     ["inputs", "configurations"], "every kernel, attribute setting and optional input; output buffers holding stale data",
     "The inference runtime has no stable tests, and a skipped or misplaced write just leaves stale memory in a reused buffer.",
     ["inference/kernels.py"],
     [("kernels", "inference/kernels.py: run methods of the classes registered with KernelRegistry")])

prop("P21", "The runtime never computes with shapes or views of an earlier input",
     "In every inference of the runtime each operator runs exactly once, in graph order, on views of the planned places of its operands with the shapes the current inputs imply, on the weights of the model (those of a weight file, transposed for MatMul, where the file has them) and on the inputs of this inference; nothing derived from the shapes or inputs of an earlier inference is used, also not after one that failed. Planned inputs are in their place before the first operator runs, inputs that do not fit their block are refused, an operator without kernel makes the inference fail, and every model output is returned with its current shape.",
     ["histories", "inputs"], "every sequence of inputs of changing and repeating shapes",
     "The inference runtime has no stable tests; staleness needs at least two inferences of different shape.",
     ["inference/infer.py", "inference/memory_pool.py"],
     [("engine", "inference/infer.py: GraphInfer")])

prop("P22", "Serialized files announce exactly what follows",
     "Every serialized graph, shape engine and memory plan follows its record layout field by field: each announced count is the count of the records written right after it, names end with a null terminator, each tagged value is preceded by the tag of its type (and each tag has one meaning), arrays are preceded by element type, rank and extents, integers and floats have their fixed width and byte order. All operators, operands, attributes, initializers, shape variables, expressions, tensor descriptions and memory blocks are written, and what the layout cannot express is refused rather than announced and left out.",
     ["inputs", "programs"], "every graph, shape engine and memory plan, including empty lists and every attribute kind (strings without embedded null characters); the check enumerates small shapes of these with symbolic contents",
     "No stable test serializes anything, and a reader in another language is the only consumer.",
     ["onnx_tool/serialization.py"],
     [("writers", "onnx_tool/serialization.py: serialize_graph, serialize_shape_engine, serialize_memory_compression")])

prop("P23", "Built language-model graphs are completely registered",
     "The graph the language-model builder makes from a configuration is the architecture the configuration describes: the operators, their wiring, attributes and activation shapes, the weights with their names from the weight map and their shapes (layer count, attention and key/value head counts and sizes, intermediate size, experts, biases, norms, rotary tables), the inputs and the output. Everything created is registered with the graph once, under its own name, weights as initializers, and every operand exists before it is used. A key/value cache has room for every layer and reaches every attention operator. Every shipped configuration builds, with or without an explicit weight map, and every device has what latency estimation needs.",
     ["configurations"], "every shipped or user-written model configuration, architecture and device entry",
     "No stable test builds a language model; each configuration takes a different set of builder branches.",
     ["onnx_tool/llm.py", "onnx_tool/model_configs.py", "onnx_tool/device.py"],
     [("builder", "onnx_tool/llm.py: Builder, create_* helpers, ArchMap, ActMap, WeightMap"), ("tables", "onnx_tool/model_configs.py, onnx_tool/device.py")])

prop("P24", "Exported tensor files stay inside the chosen folder",
     "Whatever a model calls its tensors, exporting them (all of them, or those the caller lists) writes each tensor's own data to a file that lies directly in the folder the caller named: path separators of either kind, anywhere in a tensor name, never reach the file system.",
     ["inputs"], "every tensor name (model files are untrusted input)",
     "Needs a model with hostile tensor names.",
     ["onnx_tool/__init__.py"],
     [("export", "onnx_tool/__init__.py: model_export_tensors_numpy")])

prop("P25", "Every spatial axis is computed from that axis's own parameters",
     "For convolution, transposed convolution and pooling of any supported rank, the output extent of each spatial axis is computed from that axis's input extent, kernel extent, stride and dilation and from that axis's own begin and end padding, and placed at that axis's position. No axis borrows a parameter of another.",
     ["inputs", "configurations"], "every rank, every combination of unequal kernel sizes, strides, dilations and asymmetric paddings",
     "No stable test infers a convolution or pooling, and the usual square kernels with symmetric padding hide exchanged indices.",
     ["onnx_tool/node.py"],
     [("window shape formulas", "onnx_tool/node.py: PoolBase, ConvNode, QLinearConvNode, ConvIntegerNode, ConvTransposeNode shape_infer and the *_shape_calc helpers")])

prop("P26", "Every operator type resolves to its own implementation",
     "Each supported operator type resolves to exactly one implementation, registered under the operator's own name; no two registrations share a name, every operator class is registered, and every operator type the package itself creates has one. The registry stores and returns the given class itself. An operator without implementation is kept as a plain operator of zero MACs, with a warning instead of a failure.",
     ["inputs", "configurations"], "every operator type a model may contain, every registration including user ones",
     "The stable tests construct two operators; registration collisions and missing registrations show only when another operator is used.",
     ["onnx_tool/node.py", "onnx_tool/utils.py", "onnx_tool/llm.py"],
     [("registry", "onnx_tool/utils.py: NODE_REGISTRY / Registry; onnx_tool/node.py: create_node and registrations")])

prop("P27", "Quantized weights keep the scheme they were asked for",
     "Every code the weight quantizer produces lies in the range of the requested bit width and signedness and, restored with the scale and zero point of its own block, is within half a step (one step in the asymmetric scheme) of the weight; no step is wider than the value range of its block requires, and blocks of zeros and incomplete last blocks work. Packing to 4 bits keeps both codes of every byte, signed or unsigned, and every element of odd rows. graph_quantize puts codes and scale (and the zero point exactly in the asymmetric scheme) in the weight's place in every operator using it, records the scheme on each of them, registers the new initializers and removes the old one; anything that is not a floating-point weight matrix, or is quantized already, stays untouched.",
     ["inputs", "configurations"], "every model, bit width, block size, scheme and weight sharing",
     "No stable test quantizes.",
     ["onnx_tool/quantization.py"],
     [("quantization", "onnx_tool/quantization.py")])

prop("P28", "Topological order puts producers before consumers",
     "Ordering the operators of any acyclic graph, or of a part of it, keeps every operator exactly once under its own name and places it after all operators producing its inputs, whatever order they were stored in and whether or not operators leave out optional inputs or outputs; the producer and consumer links afterwards are those of the same graph.",
     ["inputs", "programs"], "every acyclic graph and every stored order of its operators",
     "The stable tests load models whose operators are stored in order.",
     ["onnx_tool/graph.py"],
     [("ordering", "onnx_tool/graph.py: Graph.topsort_nodes, Graph.graph_reorder_nodes")])

prop("P35", "Loading a model keeps every operator, constant and connection",
     "The graph built from a model holds every operator of the file once (under the file's name where that is unique), with its type, domain, attributes, operands and results, and computes every declared output from the same inputs and constants as the file does. Constant folding removes exactly the operators that depend on constants only and make no output; a fixed If branch puts that branch's operators in the place of each If, connected to the values they capture, whatever names branches share with each other or with the graph; a fixed TopK k replaces the k of every TopK; operators that only served a removed condition or k may go, nothing else. Inputs are the used declared ones, outputs the declared ones; each operand and result has a tensor of its name; producers and consumers are those of the operators.",
     ["inputs", "programs"], "every model description: names, orders, shared and omitted operands, constants, branches and loading options",
     "The stable tests load a few models whose operators have unique names and no If.",
     ["onnx_tool/graph.py"],
     [("loading", "onnx_tool/graph.py: Graph.__init__, __init_graph_from_onnxproto__, __update_nodes_tensors__, __remove_if__, __set_fixed_topk")])
prop("P36", "Editing or cutting a graph keeps the computation of what remains",
     "remove_node takes away exactly the named operator (recursively also producers whose results nobody uses and that are no output), remove_subtree exactly the operator and everything computed from it, remove_dangling_nodes exactly the operators no output needs. skip_node lets the users of an operator read its only activation, or leaves the graph alone, and every output keeps its name. Fusing a group puts one operator in its place that reads what the group takes from outside and produces what is used outside or is an output; post-operator fusion keeps the operand positions of the main operator. get_subgraph gives three graphs that hold every operator once, whose crossing tensors are outputs of one part and inputs of another, with the constants they read. get_compute_graph holds no shape calculation and every other operator an output needs. Whatever is not named by the edit keeps its operands, results and attributes, the outputs are still computed the same way, and omitted operands or results connect nothing.",
     ["inputs", "programs"], "every graph and every operator, group or cut",
     "No stable test edits, cuts or fuses a graph.",
     ["onnx_tool/graph.py"],
     [("edits", "onnx_tool/graph.py: remove_node, remove_subtree, remove_dangling_nodes, skip_node, fuse_subgraph_node_names, fuse_postop_node_names, get_subgraph, __get_subnodes_byio__, get_iotensors, get_compute_graph")])
prop("P30", "Regressed shape formulas reproduce true shape inference",
     "Wherever every size of a graph is a multiple, a fraction (exact, or rounded in a way the sampled sizes show), a sum or an offset of one of the declared variables, the shape engine built by shape_regress gives, after the variables are set to any values and the derived ones updated, the shape every tensor has under full shape inference. The inputs it generates have the shapes of their descriptors, sizes that do not vary stay numbers, and building one engine does not change the descriptors the caller gave.",
     ["inputs"], "every value of each shape variable, every linear dependency of a size on one variable", "No stable test regresses shapes.",
     ["onnx_tool/graph.py"], [("regression", "onnx_tool/graph.py: ValueExpr, ShapeEngine, Graph.shape_regress")])
prop("P37", "Whole-graph inference runs every operator on its own tensors",
     "Graph.shape_infer and Graph.value_infer take over the arrays given for the inputs (contents, shape and element type), ignore names the graph does not have, and run every operator exactly once, after the operators it reads from, with its own operands and results in their positions; shape_infer computes the values of exactly those operators on whose results a shape depends. value_infer hands back the value of every output in the declared order, tensors added for dumping after them and once, and also inputs and constants that are outputs. shape_infer refuses a graph with an input of unknown size that was not given, without calling its shapes valid, and accepts every other.",
     ["inputs", "programs"], "every graph, set of given inputs and declared input shape",
     "The stable tests infer a few models and compare totals.",
     ["onnx_tool/graph.py", "onnx_tool/tensor.py"],
     [("inference", "onnx_tool/graph.py: Graph.shape_infer, value_infer, update_input_by_map, check_inputs, add_dump_tensors; onnx_tool/tensor.py: Tensor.update_tensor")])
prop("P38", "Projected memory and latency follow the configuration and the device",
     "Builder.profile gives every operator twice its multiply-adds as operations and, as memory, its activations at the bits of Others plus its weights at the bits of their class: MM for matrix operators (MatMul, MoE, MLA, GDN) and embeddings, MHA for the cached keys and values of attention, Others for the rest; the weights add up per class. With a device, compute time is operations over the rate configured for the class (the FP32 rate when the device lacks it), transfer time is memory over bandwidth; matrix operators and attention divide both by the number of linked devices and then exchange their activations over the link, while devices without a link count as one. An operator's latency is the larger of the two times plus the exchange, its bottleneck the larger one, and the total the sum.",
     ["inputs", "configurations"], "every operator class, operator size, configuration of bits and rates, and device description",
     "The stable tests do not estimate latencies.",
     ["onnx_tool/llm.py"], [("estimate", "onnx_tool/llm.py: Builder.profile")])
prop("P31", "Quantization error stays within half a step",
     "Dequantizing a quantized weight differs from the original by at most half a quantization step per element.",
     ["inputs"], "every weight array", "No stable test quantizes.", ["onnx_tool/quantization.py"], [("rounding", "onnx_tool/quantization.py")])
prop("P32", "Runtime results equal the reference implementation's",
     "Executing a model with the memory-compressed runtime gives the same outputs as a reference ONNX runtime up to rounding.",
     ["inputs", "programs"], "every model and input", "The runtime has no stable tests.", ["inference/infer.py", "inference/kernels.py"], [("kernels", "inference/kernels.py")])

prop("P33", "Inferred output shapes follow the operator's definition",
     "For every supported operator, whenever shape inference succeeds on a valid use, every output has the rank and the extents the ONNX operator definition gives for the input extents, the attributes (or their defaults) and the shape-carrying constant inputs: broadcasting is per dimension, negative axes count from the end, omitted axes/steps/splits take their defined meaning.",
     ["inputs", "configurations"], "every input extent, every operator configuration (rank, attributes, constant shape-carrying inputs)",
     T13 + " A wrong extent for one configuration of one operator silently corrupts every downstream shape and cost.",
     ["onnx_tool/node.py"],
     [("shape rules", "onnx_tool/node.py: shape_infer and value_infer of every operator class")])

prop("P34", "Entry points do what their options ask",
     "model_profile, model_shape_regress, model_constant_folding, model_reorder_nodes, model_io_modify, model_subgraph and model_opfusion load the given model and perform their documented steps in order, on the right graph, with the operands their options name: operators are ordered before shape inference, hidden operators include the excluded ones, results are saved exactly when a path is given and with the save options given, each sub-graph goes to its own file, and model_io_modify changes exactly the dimensions of the named inputs and outputs. Every command-line mode runs its own entry point with the options given. A model option takes the value given and its documented default otherwise.",
     ["inputs", "configurations"], "every combination of options being absent or present; every command-line mode",
     "The stable tests call a few entry points with default options and do not run the command line.",
     ["onnx_tool/__init__.py", "onnx_tool/__main__.py", "onnx_tool/model.py", "onnx_tool/utils.py"],
     [("entry points", "onnx_tool/__init__.py: model_* functions"), ("command line", "onnx_tool/__main__.py"), ("options", "onnx_tool/utils.py: ModelConfig; onnx_tool/model.py: Model.save_model")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

# exec'd by spec.py: the properties of the tensor class, the readers and writers, and the importer
TEN = ['pico-cnn/tensor.h', 'pico-cnn/tensor.cpp']
P('P13', 'A tensor has the shape it was made with and one cell per index',
  'A tensor constructed with one to four extents reports exactly those extents, their product as element count and the matching batch, channel, height and width, starts zeroed, and maps every in-range index tuple to its own row-major cell inside its buffer. Writing one element is seen by reading the same index and by no other, whichever accessor or pointer is used.',
  ['inputs', 'configurations'], 'all ranks, extents and index tuples',
  'Tests touch a few cells of small tensors; an index formula that mixes two extents is right whenever they are equal.',
  TEN, [('access, get_ptr_to_channel, shape', 'pico-cnn/tensor.h')], T_FLOW, N_FLOW)
P('P14', 'Copying, padding and concatenating move every element to its place',
  'Copying gives an equal tensor; copying with padding puts every source element at its position shifted by the padding before it and the initial value everywhere else, for every batch and channel; concatenation along a dimension puts every element of the source at its index offset by the extents already written. The sources stay unchanged.',
  ['inputs', 'configurations'], 'all data, all ranks and extents, all paddings per side, all dimensions and offsets',
  'Tests use symmetric padding and single-batch concatenation along one dimension.',
  TEN, [('copy_with_padding_into, concatenate_from', 'pico-cnn/tensor.cpp')], T_FLOW, N_FLOW)
P('P15', 'Tensors compare equal exactly when shapes and all elements match',
  'Comparison of two tensors is true if and only if rank, every extent and every element agree, and changes neither of them.',
  ['inputs'], 'all pairs of tensors, also those that differ in one element only, or only in shape',
  'Every test of the suite decides its verdict with this comparison: a comparison that skips elements makes all other tests blind.',
  TEN, [('operator==', 'pico-cnn/tensor.cpp')], T_FLOW, N_FLOW)
P('P16', 'Tensor sums and scalings act on every element, in place, and only there',
  'Adding a tensor or a channel of it adds element to element for every index, multiplying with a factor stores the product of every element, and nothing outside the addressed elements changes. Operands whose shapes do not fit end the program instead of being added partly.',
  ['inputs', 'configurations'], 'all data, ranks, extents, batch and channel indices',
  'Tests add one pair of small tensors.',
  TEN, [('add_tensor, add_channel, mul_with_factor', 'pico-cnn/tensor.cpp')], T_FLOW, N_FLOW)
P('P17', 'Tensors own their memory and release it exactly once',
  'Every tensor releases its shape and data exactly once with the matching operator at the end of its life; padded copies own their memory; no tensor operation leaks memory or releases memory of its arguments.',
  ['histories', 'inputs'], 'all ranks, extents, operations',
  'Leaks, double releases and mismatched operators change no tested value.',
  TEN, [('~Tensor', 'pico-cnn/tensor.cpp')], T_EFF, N_FLOW)
P('P35', 'The text dump lists the shape and every element once in order',
  'Writing a tensor to a stream emits its extents and then every element exactly once in row-major order, any two elements separated, nested in brackets that open and close where a dimension begins and ends, for every supported rank.',
  ['inputs'], 'all ranks and extents', 'No test reads the text dump; it is what a user debugs a generated network with.',
  TEN, [('operator<<', 'pico-cnn/tensor.cpp')], T_FLOW, N_FLOW)
IO = 'pico-cnn/io/'
RD = [IO + 'read_binary_weights.cpp', IO + 'read_binary_reference_data.cpp', IO + 'read_mnist.cpp', IO + 'read_pgm.cpp', IO + 'read_jpeg.cpp', IO + 'read_means.cpp',
      IO + 'read_imagenet_labels.cpp', IO + 'read_imagenet_validation_labels.cpp']
WR = [IO + 'write_pgm.cpp', IO + 'write_float.cpp']
T_IO = 'static data-flow analysis of LLVM IR over abstract files (known structure, unknown payload), C library summarised'
N_IO = ('Static, nothing is executed. The verdict covers all payload values in every analysed file structure (valid files of all layer and image kinds, '
        'every cut position, damaged markers, oversized fields). Trusts clang, the IR extraction and the summaries of the C library.')
P('P18', 'Readers and writers close every file they open, exactly once',
  'Whatever the file contains and wherever it ends, every reader and writer that opened its file closes it exactly once before it returns, uses no handle that failed to open or is already closed, and opens it in a mode that fits its purpose.',
  ['inputs', 'fault_sequences'], 'all file contents and lengths, files that cannot be opened',
  'Tests read a few intact files; a handle lost on an error path changes no tested value.',
  RD + WR, [('fopen, fclose on every return path', IO + '*.cpp')], T_IO, N_IO)
P('P19', 'A damaged or foreign file is reported, never taken for a good one',
  'A reader reports success only if the file could be opened, its magic number and end marker are right, every announced value is present, every layer type is known and the sizes fit the network or tensor; otherwise it returns its error value (or the number of complete items) or ends the program. A writer reports success only if the data reached the file.',
  ['inputs', 'fault_sequences'], 'files cut at every byte, damaged markers, foreign types, other shapes, failing writes',
  'Tests contain no damaged file.',
  RD + WR, [('return value checks of fread, fgets, fscanf', IO + '*.cpp')], T_IO, N_IO)
P('P20', 'No file makes a reader write outside its buffers or the network',
  'For every file, including names, lines, counts and extents larger than expected, the readers access only their own buffers and the tensors they were given, inside their bounds.',
  ['inputs'], 'all file contents: oversized counts and extents, overlong names and lines, short files',
  'Tests read well-formed files only; a write past a tensor usually changes no tested value.',
  RD, [('comparisons with the extents of the network before copying', IO + 'read_binary_weights.cpp'), ('bounded line buffers', IO)], T_IO, N_IO)
P('P21', 'Readers release or hand over everything they allocate',
  'On every way out of a reader or writer each heap object it obtained has been released exactly once with the matching operator or is handed over through the result, and the JPEG decompressor is destroyed; what is handed over on success has not been released.',
  ['inputs', 'fault_sequences'], 'all files, valid or damaged at any point',
  'Leaks and mismatched deallocation on error paths change no tested value.',
  RD + WR, [('delete[], free before returns', IO + '*.cpp')], T_IO, N_IO)
P('P22', 'Weights reach the tensor and position they were stored for',
  'For every valid weights file the k-th stored kernel goes to the k-th kernel tensor and the k-th stored parameter vector to the k-th bias tensor, element for element in row-major order, whatever the sequence of layer types and with biases or already stored kernels left out. Nothing else in the network changes.',
  ['inputs', 'programs'], 'all sequences of layers, sizes, values, with and without biases and shared kernels',
  'Tests read one file of one network; slot counters that drift after a certain layer type stay unnoticed.',
  [IO + 'read_binary_weights.cpp', 'doc/binary_weight_file_format.md', 'onnx_import/backend.py'], [('kernel_idx, bias_idx', IO + 'read_binary_weights.cpp')], T_IO, N_IO)
P('P23', 'Reference data is read into the right elements',
  'For every valid reference input or output file whose extents match, each tensor element holds the value stored at its row-major position, for tensors of rank two to four.',
  ['inputs'], 'all extents and values', 'Tests read one input and one output file.',
  [IO + 'read_binary_reference_data.cpp'], [('channel-wise copy', IO + 'read_binary_reference_data.cpp')], T_IO, N_IO)
P('P24', 'Images, labels and means are decoded as stored',
  'MNIST, PGM and JPEG pixels come out at their row and column, scaled linearly from 0..255 to the given bounds and framed by the lower bound where padding is asked for; JPEG channels come out in blue, green, red order; labels, of any length, and means come out in file order with the right values and count.',
  ['inputs'], 'all pixel values, extents, paddings, counts, label lengths',
  'Tests compare few images; swapped extents are invisible for square images.',
  [IO + 'read_mnist.cpp', IO + 'read_pgm.cpp', IO + 'read_jpeg.cpp', IO + 'read_means.cpp', IO + 'read_imagenet_labels.cpp', IO + 'read_imagenet_validation_labels.cpp'],
  [('index computation and scaling', IO + 'read_*.cpp')], T_IO, N_IO)
P('P25', 'Written images hold every pixel in order and in full precision',
  'A written float file holds magic, height, width and every element in row-major order in a notation that reads back exactly; a written PGM file holds the documented header and one byte per pixel, the element scaled from its minimum and maximum to 0..255.',
  ['inputs'], 'all pixel values and extents including images of one value', 'Tests do not read back what is written.',
  WR, [('write loops', IO + 'write_*.cpp')], T_IO, N_IO)
IMPF = ['onnx_import/onnx_to_pico_cnn.py', 'onnx_import/backend.py', 'onnx_import/pico_cnn.py', 'onnx_import/compute_graph.py', 'onnx_import/constprop.py',
        'onnx_import/memory_allocation.py', 'onnx_import/generate_dummy.py', 'onnx_import/code_templates/']
T_IMP = 'abstract interpretation of the Python importer over symbolic-tensor models; type check and LLVM-IR data-flow analysis of the code it generates'
N_IMP = ('Static: neither importer, library nor generated network is executed. The verdict covers all tensor contents of every analysed model (a grid over operators, '
         'attributes, ranks, names, topologies, plus random networks). Trusts the summaries of numpy, onnx and jinja2, clang, the value-number normaliser and '
         'the written ONNX definitions; models outside the analysed ones are extrapolated.')
P('P26', 'Generated C++ always compiles against the library',
  'Whenever the importer writes a network, the generated network, dummy program and reference program are well-formed C++11 against the headers of the library and refer only to library functions that exist.',
  ['programs', 'configurations'], 'all models the importer accepts: operators, attributes, ranks, optional inputs, names',
  'No test runs the importer; a template that breaks for one attribute or rank is only seen by the user of that operator.',
  IMPF, [('templates and template attributes', 'onnx_import/code_templates/'), ('create() of each operator', 'onnx_import/pico_cnn.py')], T_IMP, N_IMP)
P('P27', 'Unsupported operators and attributes are refused, never miscompiled',
  'A model with an operator, attribute value, rank or operand the importer does not implement is refused, at import time or by the generated program ending with a message; it never becomes a network that silently computes another function or touches memory that is not its own.',
  ['programs', 'configurations'], 'automatic padding, dilations, ceil mode, even kernels, Gemm factors and transpositions, axes, broadcasting, negative and channel padding, unknown operators, several inputs or outputs',
  'The set of unsupported models is open; the failure is a wrong number in a deployed network.',
  IMPF, [('guards in create()', 'onnx_import/pico_cnn.py'), ('unsupported layer aborts', 'onnx_import/backend.py')], T_IMP, N_IMP)
P('P28', 'Every parameter of the model reaches its layer through the weights file',
  'The weights file the importer writes is accepted by the reader of the library for the network written with it, and after reading, each layer computes with exactly the initializers its node names, also when biases are absent, parameters are shared between or within nodes, or initializers come in another order.',
  ['programs', 'inputs'], 'all parameter values; all sequences of parametrised layers, with shared, absent, reordered and unused parameters',
  'Writer and reader are two programs in two languages that have to count slots alike; tests read one prepared file.',
  IMPF + ['pico-cnn/io/read_binary_weights.cpp'], [('_generate_weights_file, _generate_network_initialization', 'onnx_import/backend.py'), ('kernel_allocation.cpp', 'onnx_import/code_templates/memory_allocation/')], T_IMP, N_IMP)
P('P29', 'A generated network frees everything exactly once when deleted',
  'Constructing a generated network, loading its weights, running it any number of times and deleting it releases every buffer, parameter and layer object exactly once with the matching operator, uses none of them afterwards, and leaves the caller\'s tensors alone.',
  ['programs', 'histories'], 'all accepted models; construction, loading, two runs, deletion',
  'Leaks and double releases in generated code change no output.',
  IMPF, [('_generate_network_cleanup, generate_deletion', 'onnx_import/backend.py'), ('buffer_cleanup.cpp, layer_delete.cpp', 'onnx_import/code_templates/')], T_IMP, N_IMP)
P('P30', 'A generated network stays inside its buffers',
  'Every buffer, parameter array and attribute array of a generated network is large enough and set before use: construction, weight loading and runs access only live memory inside its bounds and decide nothing by values that were never set, also when the weights file holds more parameters than the network has.',
  ['programs', 'inputs'], 'all accepted models, all input and parameter values',
  'An output buffer that is a row too small rarely crashes and usually changes no tested value.',
  IMPF, [('output_allocation.cpp, kernel_allocation.cpp', 'onnx_import/code_templates/memory_allocation/'), ('Buffer.get', 'onnx_import/memory_manager.py')], T_IMP, N_IMP)
P('P31', 'Shapes the model leaves out are inferred as ONNX defines them',
  'Where a model does not state the shape of an intermediate tensor, the shape the importer derives (pooling, products, reshapes, concatenation, transposition, elementwise operators, a free batch dimension) is the one ONNX defines, so the network is accepted and its layers and outputs have the right extents and values.',
  ['programs', 'configurations'], 'chains of supported operators with all intermediate shapes stated or left out, free or larger batch dimension',
  'Exported test models state all shapes.',
  IMPF, [('constant_propagation', 'onnx_import/constprop.py')], T_IMP, N_IMP)
P('P32', 'Constant folding and removal of no-ops preserve the function',
  'Replacing constant subgraphs by their values and removing reshapes, dropouts and dead nodes leaves the function from network input to network output unchanged, wherever in the graph they occur, including at the output and with several consumers.',
  ['programs'], 'shape arithmetic (Shape, Gather, Concat, Unsqueeze, Constant), reshapes with and without effect, dropouts, at every position',
  'Needs graphs of a particular form; the result is a wrong edge in an otherwise working network.',
  IMPF, [('_remove_constants, _remove_nops', 'onnx_import/backend.py'), ('remove_node', 'onnx_import/compute_graph.py')], T_IMP, N_IMP)
P('P33', 'Names in the model never change or break the generated network',
  'The generated network computes the same function whatever the nodes, tensors and parameters of the model are called: names with punctuation, leading digits, missing names and names that become equal when punctuation is replaced each keep their own identifier.',
  ['programs'], 'all node, tensor, parameter, input and model names',
  'Exporters choose names; collisions appear only in particular models.',
  IMPF + ['onnx_import/memory_manager.py'], [('_unique_identifier, TensorNames', 'onnx_import/compute_graph.py'), ('identifier', 'onnx_import/pico_cnn.py')], T_IMP, N_IMP)
P('P34', 'An imported network computes the function the ONNX model defines',
  'For every model of supported operators the importer accepts it and the generated network, with the weights written for it, gives in every run the output the ONNX operator definitions give, for every input: each node becomes its layer with its own attributes and operands, in dependency order, with branches, sums and concatenations joined as in the model.',
  ['programs', 'inputs', 'histories'], 'all inputs and parameter values; every supported operator with its attribute combinations, and networks of several operators with branches',
  'There is no test of the importer at all, and no finite set of models and inputs settles it.',
  IMPF + ['pico-cnn/'], [('create(), templates', 'onnx_import/pico_cnn.py'), ('_export_model', 'onnx_import/backend.py')], T_IMP, N_IMP)
GM = 'onnx_import/code_templates/main_program/'
T_MAIN = 'LLVM-IR data-flow analysis of the generated main program from argc/argv; abstract interpretation of the importer that writes it'
N_MAIN = ('Static: neither importer nor generated program is executed. The verdict covers all output, reference and random values for each analysed model and command line; path conditions '
          'of the verdict texts are compared with the definition over assignments that differ in one or several elements by amounts around the tolerance.')
P('P36', 'The reference program tells right from wrong',
  'The generated reference program runs the network once, on exactly the input stored in the file, with the weights of the file, and reports "almost equal" if and only if every output element is within 0.001 of the stored reference element, and "not almost equal" otherwise, wherever the differing element is and whatever its sign or size, including values that are not numbers. Wrong argument counts and unreadable or truncated files end it with a failure status and without a verdict; it stays inside its memory for arguments of any length and releases everything it obtained.',
  ['inputs', 'programs', 'fault_sequences'], 'all inputs, outputs and references, models of rank two to four, argument counts and lengths, unreadable and truncated files',
  'The program is the documented test of an import; one that always passes passes every test.',
  IMPF + ['pico-cnn/io/read_binary_reference_data.cpp'], [('comparison loop, almost_equal', GM + 'reference_input.cpp')], T_MAIN, N_MAIN)
P('P37', 'The dummy program runs the network as often and on such data as asked',
  'The generated dummy program runs the network exactly as often as its second argument says; every element of every input is a random number from 0 to 1 that was drawn for it, drawn once for all runs if the third argument is not zero and anew for each run if it is zero. Wrong argument counts and unreadable or truncated weights end it with a failure status before any run; it stays inside its memory for arguments of any length and releases everything it obtained.',
  ['inputs', 'programs', 'fault_sequences'], 'all random sequences, run counts, generate-once arguments, models of rank two to four',
  'Random data and run counts are not observable in the output of the program.',
  IMPF, [('RUNS, GENERATE_ONCE, urand', GM + 'dummy_input.cpp')], T_MAIN, N_MAIN)
P('P38', 'The documented way from a model file to a program works',
  'For a model file in any directory and with any name that make accepts for a target, the importer\'s documented command line writes network, weights, Makefile and main programs to generated_code/<model name>; in that directory the documented make targets (dummy_input, reference_input, the model\'s own program copied from the examples, all) build the program of that name with the library built by its own Makefile, in the C++ standard those Makefiles ask for, and also with -DDEBUG added.',
  ['configurations', 'programs'], 'documented targets, examples and flags; model paths with and without directories',
  'The tests are built by another build system with another C++ standard and without the examples and the importer.',
  ['onnx_import/onnx_to_pico_cnn.py', 'onnx_import/backend.py', 'onnx_import/generate_dummy.py', 'pico-cnn/', 'examples/'], [('Makefile text, save()', 'onnx_import/backend.py'), ('main()', 'onnx_import/onnx_to_pico_cnn.py')],
  'build-failure witnesses: compiler and linker decide the commands that make -n expands from the generated and the library Makefile; the importer is abstractly interpreted from its command line',
  'Static: nothing that is built is run. Trusts gcc and make; optimisation flags are dropped.')
P('P39', 'Reference data files hold exactly what the model was given and answered',
  'For every input kind and shape the reference data script accepts, the file of input data is one the library reads into a tensor of that shape and whose elements are exactly the numbers the model was run on, and the file of output data reads back as exactly the numbers the model answered; random inputs are random in every element and inside the range asked for. The script that converts reference files of the model zoo writes for each its own data file with exactly its elements. Unsupported data, shapes, batches and missing files end in a failure instead of a wrong pair of files, and no existing file is overwritten.',
  ['inputs', 'configurations'], 'all sample values; random, audio, jpeg and grey map inputs; ranks two to four; any number of reference files',
  'There is no test of the scripts; they are the oracle of every import.',
  ['util/generate_reference_data.py', 'util/parse_onnx_reference_files.py', 'pico-cnn/io/read_binary_reference_data.cpp'],
  [('struct.pack of header and rows', 'util/generate_reference_data.py'), ('struct.pack of header and rows', 'util/parse_onnx_reference_files.py')],
  'abstract interpretation of the Python scripts with unknown samples; LLVM-IR data-flow analysis of the readers over the files they write',
  'Static: nothing is executed. The verdict covers all sample values for the grid of shapes and input kinds. Trusts the summaries of the Python packages.')
P('P40', 'Prepared images have the size and show the part asked for',
  'For every image of a directory and every size, scaling writes the whole image at exactly the width and height asked for, center cropping writes the unscaled part of that size whose margins differ by at most one pixel, and cropping the unscaled part of that size at the position asked for, never one that leaves the image. Each image is written once, under its own name in another directory, other files are skipped, no source is overwritten, and unusable sizes, positions and modes write nothing.',
  ['inputs', 'configurations'], 'all image sizes, even and odd, portrait and landscape; sizes of one or two numbers; positions',
  'Swapped or off-by-one geometry is invisible for square images of even size.',
  ['util/prepare_images.py'], [('crop boxes', 'util/prepare_images.py')], 'abstract interpretation of the Python script: composition of the geometric operations applied to each saved image',
  'Static: nothing is executed. Image content is unknown; sizes are a grid. Trusts the summaries of PIL, argparse and os.')

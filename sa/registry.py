"""Which function decides which property."""
from . import p_layers as PL

FLOW = ('Static data-flow analysis of the LLVM IR compiled from the current sources, with calls inlined from an API-level root '
        '(construct, run, destroy). Integers and addresses are propagated as constants in contexts with known shapes, data as hash-consed '
        'value numbers; data-dependent branches are analysed on both sides and merged at their join. Nothing of the library is executed. '
        'The verdict covers all data for every analysed shape context; the contexts are a grid over ranks, batch, channels, strides, padding, '
        'groups, plus contexts around every integer constant found in the code. ')
A_FLOW = ['clang 18 translates the sources as the build compiler does (naive implementation, DEBUG=0)',
          'reordering of real arithmetic is not a difference; rounding is out of scope',
          'standard-library streams and std::string are summarised, not analysed',
          'shapes outside the analysed contexts are extrapolated from uniform loop code']

CHECKS = {
    'P01': (PL.p01, FLOW, A_FLOW),
    'P02': (PL.p02, FLOW, A_FLOW),
    'P03': (PL.P_values(['Convolution']), FLOW, A_FLOW),
    'P04': (PL.P_values(['MaxPooling', 'GlobalMaxPooling']), FLOW, A_FLOW),
    'P05': (PL.P_values(['AveragePooling', 'GlobalAveragePooling']), FLOW, A_FLOW),
    'P06': (PL.P_values(['FullyConnected', 'MatMul']), FLOW, A_FLOW),
    'P07': (PL.P_values(['BatchNormalization']), FLOW, A_FLOW),
    'P08': (PL.P_values(['ReLU', 'LeakyReLU', 'ParameterizedReLU', 'Clip', 'Sigmoid', 'TanH', 'ActivationFunction']), FLOW, A_FLOW),
    'P09': (PL.P_values(['Softmax', 'LRN']), FLOW, A_FLOW),
    'P10': (PL.p10, FLOW, A_FLOW),
    'P11': (PL.p11, FLOW, A_FLOW),
    'P12': (PL.p12, FLOW, A_FLOW),
}

from . import p_tensor as PT
CHECKS.update({
    'P13': (PT.p13, FLOW, A_FLOW),
    'P14': (PT.p14, FLOW, A_FLOW),
    'P15': (PT.p15, FLOW, A_FLOW),
    'P16': (PT.p16, FLOW, A_FLOW),
    'P17': (PT.p17, FLOW, A_FLOW),
    'P35': (PT.p35, FLOW, A_FLOW),
})
from . import p_io as PI
IOX = FLOW.replace('contexts with known shapes', 'contexts with a known file structure') + ' Files are abstracted to known structure bytes and unknown payload values; the stream and string functions of the C library are summarised.'
A_IO = A_FLOW + ['the C library behaves as its summaries say', 'files of a structure outside the analysed contexts are extrapolated']
CHECKS.update({
    'P18': (PI.p18, IOX, A_IO), 'P19': (PI.p19, IOX, A_IO), 'P20': (PI.p20, IOX, A_IO), 'P21': (PI.p21, IOX, A_IO),
    'P22': (PI.p22, IOX, A_IO), 'P23': (PI.p23, IOX, A_IO), 'P24': (PI.p24, IOX, A_IO), 'P25': (PI.p25, IOX, A_IO),
})

from . import p_import as PM
IMP = ('Static analysis of the importer and of what it generates. For each abstract model (shapes, attributes and names fixed, all tensor contents symbols) '
       'the importer\'s Python source is abstractly interpreted from its syntax tree, with summaries of numpy, onnx and jinja2, on every path that depends on '
       'tensor contents; the texts it writes are type-checked and compiled to IR, and the data flow of a program that constructs the network, reads the '
       'generated weights file, runs twice and deletes the network is analysed through generated code and library together. Output elements are value '
       'numbers over the input and the parameters, compared with those composed from the ONNX operator definitions. Nothing of the importer, the library '
       'or the generated network is executed. The verdict covers all tensor contents of each analysed model; the models are a grid over operators, '
       'attributes, ranks, names and topologies plus random networks of supported operators. ')
A_IMP = A_IO + ['numpy, onnx (shape inference, dropout elimination) and jinja2 behave as their summaries say',
                'models outside the analysed ones are extrapolated']
CHECKS.update({'P26': (PM.p26, IMP, A_IMP), 'P27': (PM.p27, IMP, A_IMP), 'P28': (PM.p28, IMP, A_IMP), 'P29': (PM.p29, IMP, A_IMP), 'P30': (PM.p30, IMP, A_IMP),
               'P31': (PM.p31, IMP, A_IMP), 'P32': (PM.p32, IMP, A_IMP), 'P33': (PM.p33, IMP, A_IMP), 'P34': (PM.p34, IMP, A_IMP)})

from . import p_build as PB, p_main as PMA, p_util as PU
MAIN = ('Static analysis of the main programs the importer writes: the importer is abstractly interpreted over abstract models, the generated main program is compiled to '
        'IR and its data flow is analysed from main(argc, argv) through generated network, weights reader and reference data readers, with files of known structure and '
        'unknown values; Network::run is summarised by unknown outputs. Verdict texts are printed under path conditions that are formulas over outputs and references. ')
A_MAIN = A_IMP + ['a run of the network writes its output tensor only (P01, P30)', 'rand() gives values from 0 to RAND_MAX']
UTIL = ('Static analysis of a command line script: its Python source is abstractly interpreted for a grid of command lines and input files whose samples are unknown numbers, '
        'with summaries of argparse, numpy, struct, onnx, caffe2, magic, imageio, scipy and PIL; every path that depends on unknown numbers is followed. ')
CHECKS.update({
    'P36': (PMA.p36, MAIN, A_MAIN), 'P37': (PMA.p37, MAIN, A_MAIN),
    'P38': (PB.p38, 'The importer is abstractly interpreted from its command line; the rules of the generated and the library Makefile are expanded by make -n in a scratch copy; '
                    'each compile, archive and link command is a build-failure witness: the compiler and the linker accept it or name the construct that breaks it. Nothing built is run. ',
            ['gcc and GNU make of this system stand for the documented tool chain', 'code is compiled without optimisation and -march=native']),
    'P39': (PU.p39, UTIL + 'What it writes is handed as an abstract file to the data-flow analysis of the library readers. ', A_IO + ['the summarised Python packages behave as their summaries say']),
    'P40': (PU.p40, UTIL, ['PIL, argparse and os behave as their summaries say', 'image sizes outside the analysed ones are extrapolated']),
})

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry

LAY = 'pico-cnn/layers/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, observe=None):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])), tech, note))


T_FLOW = 'static data-flow analysis of LLVM IR: value numbering in known-shape contexts against the operator definition'
N_FLOW = ('Static, nothing is executed. In every analysed shape context the verdict covers all data values (normal-form equality); the '
          'contexts are a grid plus contexts around every constant in the code. Trusts clang, the IR extraction, the value-number '
          'normaliser (real arithmetic) and the written operator definitions.')
T_EFF = 'static effect and bounds analysis of LLVM IR (constant-propagated addresses, ownership events)'
T_TS = 'static typestate and taint analysis over the control-flow graph of the readers and writers'
T_PY = 'static analysis of the Python importer by abstract interpretation of its syntax tree, checked against the template/API contract'

P('P01', 'Running a layer changes nothing but its output',
  'Constructing, running and destroying a layer leaves the input tensor, every weight and parameter tensor, every configuration array and the shapes of all tensors exactly as they were. The only memory of the caller that a run changes is the data of the output tensor.',
  ['inputs', 'configurations'], 'all data, all layer types, all supported shapes, strides, paddings, groups',
  'Tests compare one output per layer and never look at inputs or weights afterwards; an in-place trick on the input is invisible to them.',
  [LAY + 'layer.h', LAY + 'convolution.cpp', LAY + 'pooling/', LAY + 'activation_functions/', LAY + 'fully_connected.cpp', LAY + 'batch_normalization.cpp', 'pico-cnn/tensor.cpp'],
  [('padding is done in a fresh tensor', LAY + 'convolution.cpp run'), ('run(input, output)', LAY + 'layer.h')], T_EFF, N_FLOW)
P('P02', 'A run depends only on its inputs, not on history or unset memory',
  'The output of a run is a function of the input, the parameters and the configuration alone. A second run of the same layer object, with the same or another input shape, gives what a fresh layer would give; no result depends on memory that was never set, on global state, or on what the output tensor held before.',
  ['histories', 'inputs'], 'all sequences of runs on one layer object, all previous contents of the output',
  'Tests run each layer once into a fresh zeroed tensor; generated networks reuse layers and buffers for every image.',
  [LAY + 'convolution.cpp', LAY + 'pooling/pooling.cpp', LAY + 'batch_normalization.cpp', LAY + 'activation_functions/lrn.cpp', 'pico-cnn/tensor.cpp'],
  [('outputs are overwritten, not accumulated into', LAY + '*.cpp')], T_FLOW, N_FLOW)
P('P03', 'Convolution computes the ONNX convolution',
  'For every supported configuration (1-D and 2-D, any kernel size, stride, zero padding per side, group count, with or without bias) each output element is the bias of its channel plus the sum over the channels of its group and the kernel window of input times kernel weight, with positions outside the input counting as zero.',
  ['inputs', 'configurations'], 'all input, kernel and bias values; all shapes, strides, paddings, groups of batch size one',
  'Tests use a few square kernels and symmetric paddings; index errors for non-square shapes, uneven padding or several groups pass them.',
  [LAY + 'convolution.cpp', LAY + 'convolution.h', 'pico-cnn/tensor.cpp'], [('Convolution::run, convolve', LAY + 'convolution.cpp')], T_FLOW, N_FLOW)
P('P04', 'Max pooling and global max pooling give the maximum of the window',
  'Each output element of max pooling is the maximum of the input elements inside its window for every batch, channel, kernel size, stride and padding; padded positions never win. Global max pooling gives the maximum over all positions of each channel of each sample.',
  ['inputs', 'configurations'], 'all data including all-negative windows, all batches, channels, kernels, strides, paddings, 1-D and 2-D',
  'Tests sample small square windows of mostly positive data.',
  [LAY + 'pooling/max_pooling.cpp', LAY + 'pooling/global_max_pooling.cpp', LAY + 'pooling/pooling.cpp'], [('MaxPooling::pool', LAY + 'pooling/max_pooling.cpp')], T_FLOW, N_FLOW)
P('P05', 'Average pooling and global average pooling give the mean of the window',
  'Each output element of average pooling is the sum of the input elements inside its window divided by the window size if padding is counted, and by the number of elements inside the input otherwise. Global average pooling gives the mean over all positions of each channel of each sample.',
  ['inputs', 'configurations'], 'all data, batches, channels, kernels, strides, paddings, both counting modes, 1-D and 2-D',
  'Tests do not reach uneven padding, windows cut at several edges, or more than one batch in both counting modes.',
  [LAY + 'pooling/average_pooling.cpp', LAY + 'pooling/global_average_pooling.cpp', LAY + 'pooling/pooling.cpp'], [('AveragePooling::pool', LAY + 'pooling/average_pooling.cpp')], T_FLOW, N_FLOW)
P('P06', 'Fully connected and matrix product compute every row of the product',
  'A fully connected layer computes, for every row of its input, the product with its (outputs x inputs) kernel plus the optional bias; the matrix product layer computes input times its (inputs x outputs) weights.',
  ['inputs', 'configurations'], 'all data, all numbers of rows, inputs and outputs, with and without bias',
  'Tests use one row and one or two sizes.',
  [LAY + 'fully_connected.cpp', LAY + 'fully_connected.h'], [('FullyConnected::run, MatMul::run', LAY + 'fully_connected.cpp')], T_FLOW, N_FLOW)
P('P07', 'Batch normalisation applies each channel its own parameters',
  'Each output element is scale times (input minus mean) divided by the square root of (variance plus epsilon), plus offset, with the four parameters of the channel the element belongs to.',
  ['inputs', 'configurations'], 'all data and parameters, all channel counts, 1-D and 2-D images of batch size one',
  'Tests cover one shape, and equal spatial sizes.',
  [LAY + 'batch_normalization.cpp'], [('BatchNormalization::run', LAY + 'batch_normalization.cpp')], T_FLOW, N_FLOW)
P('P08', 'Element-wise activations apply their function to every element',
  'ReLU, leaky ReLU, parameterised ReLU (slope per element), clipping, sigmoid, hyperbolic tangent and the identity apply their defining function to every element of the input independently, for tensors of any rank.',
  ['inputs', 'configurations'], 'all data, all ranks one to four, all sizes, all parameters',
  'Tests sample a few vectors; thresholds, saturation and remainders of blocked loops are not reached.',
  [LAY + 'activation_functions/'], [('activate', LAY + 'activation_functions/*.cpp')], T_FLOW, N_FLOW)
P('P09', 'Softmax and local response normalisation use the right neighbourhood',
  'Softmax divides the exponential of each element by the sum of the exponentials of its own sample, so that every sample sums to one. Local response normalisation divides each element by (1 + alpha/size times the sum of squares over half a window of channels on each side, cut at the first and last channel) to the power beta, within its own sample and position.',
  ['inputs', 'configurations'], 'all data, all batch and channel counts, window sizes, alpha, beta',
  'Tests use one sample and one window size.',
  [LAY + 'activation_functions/softmax.cpp', LAY + 'activation_functions/lrn.cpp'], [('Softmax::activate, LRN::run', LAY + 'activation_functions/')], T_FLOW, N_FLOW)
P('P10', 'Layers stay inside their tensors and set every output element',
  'Whatever the supported shape, constructing, running and destroying a layer reads and writes only inside live objects, follows no null or unset pointer, and assigns every element of the output.',
  ['inputs', 'configurations', 'histories'], 'all layers, all supported shapes and configurations, one or several runs',
  'An access just outside a heap block usually changes no tested value, and the suite runs without a memory checker.',
  [LAY, 'pico-cnn/tensor.h', 'pico-cnn/tensor.cpp'], [('loop bounds and row-major index computations', LAY + '*.cpp')], T_EFF, N_FLOW)
P('P11', 'A layer stops rather than compute on a shape it does not support',
  'When a layer is run on tensors whose rank, batch size or parameter sizes it does not support, the program ends with a failure status (or throws) before a normal return; it never returns with an unwritten or wrong output, and never accesses memory outside the tensors first.',
  ['inputs', 'configurations'], 'all unsupported ranks, batch sizes and parameter size mismatches the layers distinguish',
  'No test runs an unsupported shape: the process would end.',
  [LAY + 'convolution.cpp', LAY + 'pooling/', LAY + 'fully_connected.cpp', LAY + 'batch_normalization.cpp', LAY + 'activation_functions/'],
  [('rank and size checks ending in exit', LAY + '*.cpp')], 'static must-not-return analysis of LLVM IR in unsupported-shape contexts', N_FLOW)
P('P12', 'Layers release what they allocate, once, and copy their configuration',
  'Every heap object a layer obtains in construction or in any number of runs is released exactly once and with the matching operator by the end of its life, and none of the tensors it was given is released. The configuration arrays passed to a constructor are copied: changing them afterwards changes no result.',
  ['histories', 'inputs'], 'all layers, all configurations with and without padding and bias, any number of runs',
  'Leaks and mismatched deallocation change no tested value.',
  [LAY + 'convolution.cpp', LAY + 'pooling/pooling.cpp', LAY + 'pooling/'], [('destructors', LAY + 'pooling/pooling.cpp')], T_EFF, N_FLOW)

exec(open(os.path.join(HERE, 'tool', 'spec_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tool', 'spec_more.py')) else None

NA = [
    ('N01', 'Results stay within rounding error of exact arithmetic',
     'Every layer computes its operator within a stated relative error of exact real arithmetic for all single-precision inputs.',
     ['inputs'], 'all single-precision inputs', 'Tests compare a few values with a fixed tolerance.', [LAY], [('fp_t arithmetic', LAY)],
     'A rounding bound depends on runtime magnitudes and on cancellation: no static argument in reach bounds it, and value numbering here is over the reals.'),
    ('N02', 'Imported networks reproduce the accuracy of the original model',
     'The generated program classifies every image as the original model does.',
     ['programs', 'inputs'], 'all models and images', 'No model or data set is part of the tests.', ['onnx_import/', 'examples/'], [('code generation', 'onnx_import/')],
     'Needs trained models and data that the repository does not contain; the parts that can be decided from the source are the importer properties.'),
    ('N03', 'Inference time and memory stay within the documented budget',
     'A run takes no more time and memory than its operation count implies.', ['inputs'], 'all networks', 'Tests do not measure.', [LAY], [('loops', LAY)],
     'Timing is a runtime quantity of the target; no static bound is attempted.'),
]


def main():
    props, checks, na = [], [], []
    for d, tech, note in PROPS:
        if d['id'] not in registry.CHECKS:
            continue
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']
        props.append(d)
        checks.append(dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'],
                           technique=tech, level='other', level_note=note))
    for id, title, st, over, text, why, files, mech, reason in NA:
        props.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
        na.append(dict(property=id, reason=reason))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in props:
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
             notes='Static analysis only; see DESIGN.md. Regenerate this file and properties.jsonl with tool/spec.py.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()

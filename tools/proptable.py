"""The property table (source of properties.jsonl and MANIFEST.json)."""

ABY = "tf_encrypted/protocol/aby3/aby3.py"
ABT = "tf_encrypted/protocol/aby3/aby3_tensors.py"
TABLE = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    TABLE.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a, "technique": technique, "level_note": note})


SYM = ("Abstract interpretation of the graph-building source with symbolic shares; the reconstructed result is compared with the ideal "
       "operation as canonical forms, so a pass covers every value of inputs, shares and masks for the analysed shapes and parameters. "
       "Trusts TensorFlow's operators and the analyser; shapes/parameters are representatives.")

P("A01", "Three-party arithmetic returns the mathematical result for every sharing",
  "In the three-server replicated protocol, adding, subtracting, negating, multiplying, squaring, scaling by a literal, summing, matrix "
  "multiplying and convolving private and public tensors (in every mixture, including broadcasting) decode to the corresponding ring result, "
  "up to the documented fixed-point rounding. This holds for every input value, every way the secrets are split, and every random mask.",
  ["inputs", "histories"], "all element values, all sharings and masks, private/public mixtures, scaled and unscaled operands, 64- and 128-bit rings",
  "Tests sample a few small matrices with one sharing each; errors that cancel for symmetric shapes, depend on broadcasting, on scale flags or on "
  "the 128-bit ring are not sampled.",
  [ABY, ABT], [("share-wise kernels and resharing with zero shares", ABY + ": _add_*, _sub_*, _mul_*, _matmul_*, _conv2d_*, _gen_zero_sharing"),
               ("fixed-point rescaling after products", ABY + ": truncate")],
  "abstract interpretation + polynomial normal forms over share symbols", SYM)

P("A02", "Three-party bitwise operations return the exact bits for every sharing",
  "In the three-server protocol, exclusive-or, and, or, not, shifts, bit gathering, bit reversal, bit decomposition and width changes of "
  "boolean-shared and public tensors reconstruct to exactly the bits the plain operation would give. This holds for every word, every sharing and every mask.",
  ["inputs", "histories"], "all words, sharings and masks; every supported word width and operand mixture",
  "Tests use a few small positive integers; sign bits, narrow widths, broadcast operands and high bit positions are not sampled.",
  [ABY, ABT], [("bitwise kernels", ABY + ": _xor_*, _and_*, _or_*, _not_*, _lshift_*, _rshift_*, _bit_*, _bits_*, _cast_*")],
  "abstract interpretation + boolean-ring normal forms over share symbols", SYM)

P("A03", "Share conversions, secure adders and bit extraction are exact",
  "Converting a private tensor between arithmetic and boolean sharing, adding boolean-shared words with the secure adders, multiplying a number by a "
  "secret bit, and extracting a single (or the top) bit or a carry give exactly the stated function of the secret. This holds for every secret, "
  "sharing, mask and requested bit width.",
  ["inputs", "histories", "configurations"], "all secrets, sharings, masks; bit widths and positions; both adder topologies; 64- and 128-bit rings",
  "Tests convert a handful of small numbers; carry chains that cross particular bit positions or the ring's top bit are never exercised.",
  [ABY], [("parallel prefix adders, a2b/b2a, oblivious bit-times-number multiplication", ABY + ": _ppa_*, _a2b_*, _b2a_*, _mul_ab_*, _carry_*, _bit_extract_*, _msb_*")],
  "abstract interpretation + BDD / boolean-polynomial canonical forms", SYM)

P("A04", "Fixed-point truncation is a correct shift up to the stated rounding",
  "After any truncation (and hence after every scaled product) the decoded value differs from the exact shifted value by at most one unit in the last "
  "place, for every value inside the supported range and every sharing. Truncation never wraps a negative or positive in-range value around the ring.",
  ["inputs", "histories"], "all in-range values, sharings and masks; all truncation methods and amounts analysed",
  "A wrap-around depends on the particular random shares and on values near the range limits; tests accept small deviations on few samples.",
  [ABY], [("truncation protocols", ABY + ": _truncate_*, _truncate_msb0_*, _truncate_heuristic_*")],
  "abstract interpretation + shift lemmas and BDD error bound", SYM)

P("A05", "Secure comparisons and equality give the right bit for every operand pair",
  "Less-than, less-or-equal, greater-than, greater-or-equal, equality and zero tests between private and public tensors return the bit obtained by comparing the "
  "operands, provided their difference does not overflow the ring. This holds for every sharing and mask, including equal operands and operands of opposite sign.",
  ["inputs", "histories"], "all operand values whose difference fits, all sharings and masks",
  "Tests compare a few small values; ties, negative values, zero and large magnitudes in each operand mixture are not all sampled.",
  [ABY], [("comparison by sign bit of a difference", ABY + ": less_than, less_equal, greater_than, greater_equal, equal, equal_zero, msb")],
  "abstract interpretation + bit-level canonical forms", SYM)

P("A06", "Secure selection, maxima, sorting, pooling and relu pick the right elements",
  "In the three-server protocol, select, maximum, compare-and-swap, reduce-max (both methods), argmax, sort (both directions), max pooling over windows inside the image, and relu return exactly the "
  "elements (and one-hot positions or indices) that the plain operation picks, for every ordering of the inputs including ties, negative values and lengths that are not powers of two.",
  ["inputs", "configurations"], "all values via all weak orderings of the elements that meet in one output; eager and graph execution; axes, keepdims, directions",
  "Tests use one or two fixed vectors; a comparator wired the wrong way in a network, a tie, or padding for odd lengths shows only for particular orderings.",
  [ABY], [("comparison trees and sorting network", ABY + ": _reduce_max_*, _reduce_max_with_argmax_private, _sort_private, __maxpool2d_*, _while_loop_"),
          ("oblivious choice", ABY + ": select, maximum, cmp_swap, _relu_*")],
  "abstract interpretation + order domain (case split over weak orderings)", SYM)

P("A07", "Layout operations move private data exactly like their plain counterparts",
  "Reshape, transpose, slicing, indexing, gather, split, stack, concat, pad, tile, expand, squeeze, reverse, scatter and patch extraction on private or public "
  "tensors place every element exactly where the plain operation places it, leaving values, scale and sharing kind unchanged.",
  ["inputs", "programs"], "all element values and sharings; axis, permutation, padding, stride and index arguments as enumerated",
  "A wrong axis or argument dropped for one of the shares is invisible on the square, constant or single-axis examples tests use.",
  [ABY, ABT], [("per-share layout kernels", ABY + ": _transpose_*, _reshape_*, _strided_slice_*, _gather_*, _split_*, _stack_*, _concat_*, _pad_*, _im2col_*, ...")],
  "abstract interpretation + element-index tracking", SYM)

P("A08", "Every share lives on its own server and both replicas always agree",
  "After every operation of the three-server protocol, each server holds exactly its two shares, produced on that server's device, and the two servers that "
  "hold the same share hold the same value; every server's copy of a public value is that value. This holds for all inputs and masks, so that no server ever ends up holding the third share.",
  ["inputs", "configurations"], "all operations analysed, all values and masks, three servers on distinct devices",
  "Tests run all players on one device, where a share computed on the wrong server gives the same numbers; reconstruction reads only some of the replicas.",
  [ABY, ABT], [("device scopes around each share's computation", ABY + ": with tf.device(prot.servers[i].device_name)"),
               ("replicated share layout", ABT + ": ABY3PrivateTensor.unwrapped")],
  "abstract interpretation + device-provenance tracking and replica equality", SYM)

P("A09", "Fixed-point scale and sharing-kind labels always describe the data",
  "Every tensor's recorded fixed-point scale and arithmetic/boolean kind match how its shares actually encode the value, after every operation and operand mixture. "
  "Mixing scaled with unscaled operands never yields a value that decodes a factor of the scale off.",
  ["inputs", "programs"], "all operations, operand mixtures and scale combinations",
  "A wrong label only shows when a later operation or decoding consumes it; tests decode right after one operation and mostly use scaled operands.",
  [ABY, ABT], [("is_scaled and share_type bookkeeping", ABY + ": every operation kernel")],
  "abstract interpretation + label/exponent consistency", SYM)

P("A10", "No single server learns a secret from the messages it receives",
  "In the three-server protocol, everything one server receives from the others during an operation is hidden by randomness that this server cannot compute, so its "
  "view is independent of the private inputs for every input value. Only an explicit reveal, or the intended receiver of an output, sees cleartext.",
  ["inputs", "histories"], "all secret values, each of the three servers as observer, every operation analysed, 64- and 128-bit rings",
  "A missing or reused mask leaves every numeric result correct, so no functional test can see it; secrecy quantifies over all secrets and over the observer's whole view.",
  [ABY, ABT], [("zero-sharing masks and pairwise keys", ABY + ": _gen_zero_sharing, _gen_random_sharing, _share, _ot, _truncate_*, _mul_ab_*"),
               ("reveal boundary", ABY + ": _reconstruct, reveal")],
  "abstract interpretation + per-server view dependence (one-time-pad elimination)",
  "Information-flow analysis over the messages crossing devices: each received value must contain a mask uniform given the rest of the view. Assumes the pairwise PRF "
  "streams are ideal and that servers follow the protocol (semi-honest, no collusion). Shapes are representatives.")

P("A11", "Pairwise masks are never drawn twice",
  "In a running protocol instance, each server draws the pseudo-random stream of a given key and nonce at most once, whatever sequence of operations the user performs. "
  "So no two messages or results are hidden by the same mask.",
  ["histories", "programs"], "any sequence of operations in one protocol instance",
  "Reusing a nonce leaves all results correct; only comparing the masks of different operations in a history shows it.",
  [ABY], [("per-pair nonce counters", ABY + ": _update_pairwise_nonces, pairwise_nonces, _gen_zero_sharing, _gen_random_sharing"),
          ("key setup", ABY + ": _setup_pairwise_randomness")],
  "abstract interpretation of a fully expanded operation history + nonce uniqueness",
  "Every mask-drawing operation is interpreted twice in one history with all calls expanded; each draw's (key, nonce) is canonicalised and must be new on its device. Re-execution of "
  "one compiled function redraws the same masks and is recorded as a known finding.")

PON = "tf_encrypted/protocol/pond/pond.py"
TRI = "tf_encrypted/protocol/pond/triple_sources.py"
PRT = "tf_encrypted/protocol/protocol.py"

P("B01", "Two-party arithmetic returns the mathematical result for every sharing",
  "In the two-server protocol with a triple producer, adding, subtracting, negating, multiplying, squaring, summing, cumulative sums, dividing by a number, matrix multiplication, "
  "convolution, average pooling, masking and revealing of private, public and masked tensors and plain numbers (in every mixture) decode to the corresponding ring "
  "result up to fixed-point rounding. This holds for every input value, every splitting into shares and every mask.",
  ["inputs", "histories"], "all element values, sharings and masks; private/public/masked mixtures; native and CRT rings; every fixed-point configuration",
  "Tests multiply a few small matrices with one sharing; an error in one operand mixture, in a broadcast, or one that cancels for small values is not sampled.",
  [PON, TRI], [("share-wise kernels and Beaver triples", PON + ": _add_*, _sub_*, _mul_*, _square_*, _matmul_*, _conv2d_*, _avgpool2d_*, _mask_*"),
               ("triple generation", TRI + ": mul_triple, matmul_triple, conv2d_triple, square_triple, mask")],
  "abstract interpretation + polynomial normal forms over share symbols", SYM)

P("B02", "Two-party layout operations move data exactly like their plain counterparts",
  "In the two-server protocol, transpose, reshape, expand, squeeze, slicing, indexing, gather, split, stack, concat, pad and the space/batch rearrangements of private, public and masked "
  "tensors put every element exactly where the plain operation puts it, keeping value, scale and (for masked tensors) the matching mask.",
  ["inputs", "programs"], "all element values and sharings; axis, permutation, padding, stride and index arguments as enumerated",
  "A wrong axis, or an argument dropped for one share or for the mask, is invisible on square or single-axis examples and when the result is not used in a product.",
  [PON], [("per-share layout kernels", PON + ": _transpose_*, _reshape_*, _strided_slice_*, _gather_*, _split_*, _stack_*, _concat_*, _pad_*, ...")],
  "abstract interpretation + element-index tracking", SYM)

P("B03", "Two-party truncation rounds correctly and never wraps in-range values",
  "In the two-server protocol, truncation by the fixed-point scale yields the shifted value up to two units in the last place for every value within the configured precision, for "
  "every fixed-point configuration with the interactive and the non-interactive method (the latter up to its documented negligible wrap probability).",
  ["inputs", "histories", "configurations"], "all in-range values of either sign, all shares and all truncation masks within their bound; four fixed-point configurations",
  "A mask bound or offset that is off wraps only for values near the range limits or rare masks; tests sample a few small values.",
  [PON], [("truncation protocols", PON + ": _truncate_*, _truncate_private_interactive, _truncate_private_noninteractive"),
          ("fixed-point configurations", "tf_encrypted/tensor/fixed.py")],
  "abstract interpretation + truncation lemmas over bounded masks", SYM)

P("B04", "Two-party shares, public copies and masks stay on their servers and agree",
  "In the two-server protocol each server's share (and public copy, and masked copy) of every result is produced on that server's device, both copies of a public or masked "
  "value are equal, a masked tensor's mask shares add up to the mask used, and the recorded fixed-point scale matches the encoded value. This holds for every operation and operand mixture.",
  ["inputs", "configurations"], "all analysed operations and operand mixtures, all values and masks, servers and producer on distinct devices",
  "Tests run every player in one process and read only one copy of a public value, so a wrong device or a wrong second copy goes unnoticed.",
  [PON, TRI], [("device scopes around each share's computation", PON + ": with tf.device(prot.server_0.device_name)"),
               ("masks and their shares", PON + ": _mask_private, PondMaskedTensor")],
  "abstract interpretation + device provenance, copy equality and label consistency", SYM)

P("B05", "In the two-party protocol no server or the triple producer learns a secret",
  "Everything either computing server or the triple producer receives during two-server operations is hidden by randomness the receiver cannot compute, over single operations and over "
  "histories of operations on the same tensors. Masks used before interactive truncation exceed the value range by the configured statistical security. Only an explicit reveal shows cleartext.",
  ["inputs", "histories"], "all secrets, each of the three parties as observer, every analysed operation and the operation histories enumerated, all fixed-point configurations",
  "Dropping, narrowing or reusing a mask leaves every result correct, so functional tests cannot see it.",
  [PON, TRI], [("masking before sending", PON + ": _mask_private, _share, _truncate_private_interactive"),
               ("triples and their sharing", TRI + ": _share, *_triple")],
  "abstract interpretation + per-party view dependence (one-time-pad elimination)",
  "Information-flow analysis over values crossing devices; each must contain a mask uniform (or statistically sufficient for truncation) given the rest of the view. Semi-honest, "
  "no collusion, ideal randomness. Shapes and histories are representatives.")

P("M01", "Cached results are returned only for the same request",
  "Operations whose results the library caches give each request the result of its own operands, arguments, protocol instance and graph. Asking for the same operation with a different "
  "axis, permutation, index, literal, operand order, protocol instance or while another graph is traced is never answered with a stored result of another request.",
  ["histories", "programs"], "every group of requests enumerated, with the library's own caches in force, all element values",
  "Only a program that issues two nearly identical requests on the same tensors sees a wrong cached answer; tests use fresh tensors for each call.",
  [PRT, PON, ABY], [("result cache and its keys", PRT + ": memoize, make_hashable, nodes"), ("hand-written cache keys", PON + ": node_key in _add, _mul_*, _transpose_*, ...")],
  "abstract interpretation of request sequences with the caches in force",
  "The library's caching code is interpreted together with the operations; groups of requests differing in one argument are compared with their own ideal results. Request groups are enumerated representatives.")

TEN = "tf_encrypted/tensor/"
P("T01", "Native tensors compute exactly in the ring of their width",
  "Every operation of the boolean and 8-, 16-, 32- and 64-bit tensor classes - arithmetic, products, convolution, patches, bit operations, shifts, comparison, casts, indexing, "
  "reshaping, stacking, padding, construction, variables - stores exactly the documented ring result with the promised shape, dtype and factory. This holds for all element values, including those that wrap.",
  ["inputs"], "all element values of every width; every method with its argument forms, positive and negative axes, broadcasting and plain-number operands",
  "Tests use a few small matrices on one or two widths; sign bits, wrap-around, negative axes, uncommon strides and rarely used methods are not sampled.",
  [TEN + "native.py", TEN + "boolfactory.py", TEN + "shared.py", "tf_encrypted/operations/aux/aux.py"],
  [("ring operations on native dtypes", TEN + "native.py: Tensor"), ("patches and convolution", TEN + "shared.py: im2patches, patches2im, im2col, conv2d")],
  "abstract interpretation of the tensor classes to TensorFlow operations + canonical ring forms",
  "The real classes are interpreted down to TensorFlow operations whose documented semantics are trusted; the result is compared with the canonical ring operation for all element values. Shapes and parameters are representatives.")

P("T02", "128-bit tensors compute exactly in the 128-bit ring",
  "Every operation of the 128-bit tensor class - whose elements are stored as pairs of 64-bit words - gives exactly the documented operation on the 128-bit elements and never mixes or "
  "loses halves: arithmetic, bit operations, shifts, comparison, casts, indexing, axes counted from either end, reshaping, stacking, padding, convolution, construction and variables.",
  ["inputs"], "all 128-bit element values; every method with its argument forms, positive and negative axes, broadcasting and plain-number operands",
  "Values that need both halves, negative axes and most layout methods are not exercised for this width by any test.",
  [TEN + "int128.py", "tf_encrypted/operations/tf_i128/tf_i128.py", TEN + "shared.py"],
  [("elements as pairs of native words", TEN + "int128.py: Tensor, Factory"), ("128-bit operators", "tf_encrypted/operations/tf_i128/tf_i128.py")],
  "abstract interpretation of the tensor class with symbolic word pairs + canonical 128-bit forms",
  "The custom operators are trusted to be the 128-bit operations they are named after (the compiled kernels are outside the analysis). Shapes and parameters are representatives.")

P("T03", "Random tensors are uniform over exactly the range they promise",
  "A mask drawn without bounds ranges over the whole ring of its tensor factory, every element independently and from fresh or the given seed; a bounded draw gives exactly the requested number of random bits, "
  "explicit bounds are respected, equal seeds give equal values, and the sample is a usable tensor of that factory. This holds with and without the secure randomness extension.",
  ["configurations", "inputs"], "all factories (boolean, 8/16/32/64-bit, 128-bit, prime modulus), every sampler, with and without the secure randomness extension, all seeds",
  "A mask with a missing or short range still decodes to the right result, and the fallback without the extension is not run by any test.",
  [TEN + "native.py", TEN + "boolfactory.py", TEN + "int128.py", "tf_encrypted/operations/secure_random/secure_random.py"],
  [("samplers", TEN + "*.py: Factory.sample_uniform, sample_seeded_uniform, sample_bounded, sample_bits"), ("secure randomness", "tf_encrypted/operations/secure_random/secure_random.py")],
  "abstract interpretation + range and bit-provenance analysis of sampled elements",
  "Trusts that TensorFlow's and the extension's samplers are uniform on the bounds they are given. The 2^-32 bias from the exclusive upper bound on 32- and 64-bit types is accepted (threshold 2^-24).")

IOT = "abstract interpretation with exact rationals + per-party view dependence"
P("A12", "Three-party inputs, variables, files and outputs round-trip and stay hidden",
  "In the three-server protocol a value entering by private or public input, constant, variable or data owner is held as exactly that value (fixed-point rounded), and what comes out by output, local "
  "computation, variable read, assignment, file write and read, or passing through a compiled function is that value again, with the same scale, share type and ring. Player functions run on their player's device. "
  "Private data is shared with random masks, so no server or other player receives it in the clear.",
  ["inputs", "histories", "configurations"], "all plaintext values and sharings, every kind of player (separate or one of the servers), scaled and unscaled, arithmetic and boolean, 64- and 128-bit rings",
  "Tests use a player of their own, 64 bits and scaled floats; other combinations (public arguments, boolean arguments, 128-bit files, narrow integer arrays) are not run, and disclosure does not change results.",
  [ABY, ABT, "tf_encrypted/player/data_owner.py"],
  [("inputs and outputs", ABY + ": define_*, local_computation, _encode, _decode, _share, _reconstruct"), ("serialisation", ABT + ": bone; " + ABY + ": from_bone, _write_private, _read_"),
   ("data owner", "tf_encrypted/player/data_owner.py: DataOwner.provide_data")],
  IOT, "Plaintexts are X/s for symbolic X, so the round trip is an equality of polynomials with rational coefficients; TFRecord files and tf.data pipelines are modelled as record lists. Literal arrays are representatives. "
  "iterate() is outside the claim (see DESIGN.md).")

APT = "abstract interpretation + enclosures of the error polynomial over whole input ranges"
APN = ("Floating-point enclosures with margins, not interval-certified proofs; a violation is only reported with a concrete input that exceeds the tolerance. "
       "Comparisons, selections and truncation inside the functions are taken from their own properties (A03-A06; B03). Shapes are representatives.")
P("A13", "Three-party approximations stay within their stated error on the whole range",
  "In the three-server protocol the non-linear functions of a private tensor are within their tolerance for every value of the supported range. reciprocal: relative 2e-5 plus a few rounding units for "
  "magnitudes from 2^-8 (64-bit ring) or 2^-16 (128-bit) up to 2^integral, both signs; inv_sqrt: relative 1e-3 or 1e-4; division likewise; exp2 (mp-spdz, as2019): relative 2e-4, exp: 1e-3, plus a few units, "
  "and 0 below the smallest representable power, each sign hint; exp infinity: absolute 0.004 on [-12, 0]; sigmoid: absolute 0.078 (3 pieces) or 0.043 (5 pieces); Chebyshev log: absolute 0.026 on [0.25, 1.4] plus rounding; "
  "softmax: absolute 3e-3. Powers, products, polynomials and piecewise polynomials are exact and relu selects exactly, up to rounding; public sqrt and reciprocal are exact up to 2 units.",
  ["inputs", "configurations"], "every element value of the stated ranges (including every octave, piece boundary and sign), all truncation errors, 64- and 128-bit rings, all approximation types",
  "Tests evaluate a few mild points with 1e-2 tolerance; a lost top coefficient, a wrong piece boundary or a failing octave is not noticed.",
  [ABY, "tf_encrypted/protocol/aby3/fp.py"],
  [("reciprocal, square roots", "tf_encrypted/protocol/aby3/fp.py: _fp_recip_private, __fp_normalize, approx_sqrt_inv"), ("exponentials and softmax", ABY + ": _exp2_private, _exp2_pade_private, _exp_private, _softmax_private"),
   ("polynomials", ABY + ": _pow_private, _polynomial_private, _multi_polynomial_private, _polynomial_piecewise_private, _sigmoid_private, _log_private, _prod_private")],
  APT, APN)

P("B06", "Two-party inputs, variables, queues and outputs round-trip and stay hidden",
  "In the two-server protocol a value entering by private, masked or public input, constant, variable or data owner is held as exactly that value (fixed-point rounded), and what comes out by output, local "
  "computation, variable read, assignment, named queue or passing through a compiled function is that value again, in order, with the same scale and ring. Player functions run on their player's device. "
  "Private data is shared with random masks: neither server, nor the triple producer, nor another player receives it in the clear.",
  ["inputs", "histories", "configurations"], "all plaintext values and sharings, every kind of player (separate, a server, the producer), scaled and unscaled, masked or not, every fixed-point configuration",
  "Tests cover one configuration with a separate player; disclosure does not change results, and masked, unscaled or queue paths are run on one value at most.",
  [PON, "tf_encrypted/player/data_owner.py"],
  [("inputs and outputs", PON + ": define_*, local_computation, _encode, _decode, _share, _reconstruct, assign"), ("serialisation", PON + ": bone, from_bone"), ("queues", PON + ": AdditiveFIFOQueue")],
  IOT, "As A12. Bones and queues of the 100-bit factory are unsupported by the library (they raise) and are not claimed.")

P("B07", "Two-party approximations stay within their stated error on the whole range",
  "In the two-server protocol sigmoid, tanh, relu and log of a private or masked tensor are within their tolerance for every value of the supported range: sigmoid absolute 0.03 on [-4, 4], tanh 0.054 on "
  "[-2.5, 2.5], the polynomial relu 0.445 on [-6, 6], log 0.026 on [0.25, 1.4], each plus rounding, for every fixed-point configuration.",
  ["inputs", "configurations"], "every element value of the stated ranges, all truncation errors, four fixed-point configurations, plain and masked operands",
  "Tests evaluate a few points with 1e-1 to 1e-2 tolerance in one configuration; a changed high-order coefficient only shows near the ends of the range.",
  [PON], [("approximations", PON + ": sigmoid, relu, tanh, log, _polynomial")],
  APT, "As A13: floating-point enclosures with margins; truncation taken from B03; violations only with a concrete witness.")

KER = "tf_encrypted/keras/"
KT = "abstract interpretation with exact polynomials over symbolic reals; formal derivatives as oracle"
KN = ("Layers are analysed against the documented meaning of the tfe operations they call (those are checked by the A and B properties), over exact reals: fixed-point rounding and the polynomial "
      "approximations of non-linear functions are outside this claim. Shapes and options are representatives.")
P("L01", "Every encrypted layer computes what its plaintext counterpart computes",
  "For every input and every weight value, a Keras layer of the library outputs what the layer of that name is defined to output with those options: dense, 2D and depthwise convolution, pooling and global pooling, "
  "flatten, reshape, activation, relu and batch normalisation, in either data format, stride, padding, with or without bias. It has the shape the layer announces, holds for weights freshly initialised and for weights set "
  "as arrays, variables or tensors (their current value), leaves the caller's objects alone, and an option the layer does not support is refused rather than ignored.",
  ["inputs", "configurations"], "all input and weight values, both data formats, strides, paddings, bias and activation options, all three ways of giving weights",
  "Layer tests compare one random input with one option set each and never set weights from variables, use uneven strides or keep reduced dimensions.",
  [KER + "layers/", KER + "engine/base_layer.py", KER + "activations.py"],
  [("layers", KER + "layers/*.py: build, call, compute_output_shape, set_weights"), ("activations", KER + "activations.py: get, relu, sigmoid, softmax"), ("weights", KER + "engine/base_layer.py: Layer.add_weight, set_weights")],
  KT, KN + " 'same' pooling windows that reach over the border are outside the claim (the library pads with zeros and divides by the full window, see DESIGN.md).")

P("L02", "Backward passes and loss gradients are the exact derivatives of the forward pass",
  "For every input, weight and incoming gradient, a layer's backward returns the exact derivative of what the layer computed: with respect to its input, and to every weight in that weight's shape, divided by the batch size "
  "exactly when lazy normalisation is on. Losses average over the batch by their definition, and their gradient is the derivative that training needs. A configuration without a gradient raises instead of returning a wrong one.",
  ["inputs", "configurations"], "all inputs, weights and gradients; both data formats, strides (including windows that leave rows over), paddings, activations, lazy normalisation on and off",
  "Gradient tests check one geometry; a gradient that is wrong for another stride, format or leftover still trains to some loss.",
  [KER + "layers/", KER + "losses.py", KER + "activations.py"],
  [("backward passes", KER + "layers/*.py: backward"), ("activation derivatives", KER + "activations.py: *_deriv, get_deriv"), ("losses", KER + "losses.py: __call__, grad")],
  KT, KN + " Softmax has no backward of its own (the cross-entropy loss covers it), depthwise convolution and batch normalisation refuse training.")

P("L03", "Training, prediction and evaluation use every sample, weight and gradient right",
  "Fitting a model visits every batch of every epoch once, in order, pairs samples with their own labels, and after each batch changes every weight by its own gradient according to the optimizer's rule with the state of all "
  "earlier steps (momentum, Adam, AMSgrad). A sequential or cloned model applies its layers in order with the weights it was given, keeps its name, and prediction and evaluation cover every sample once, in order, and reveal "
  "results exactly when asked to, whatever was asked before.",
  ["inputs", "histories", "configurations"], "all sample, label, weight and gradient values; sequences of optimizer steps over several layers; sample counts and batch sizes that do and do not divide; repeated calls",
  "Tests train one epoch on one batch size; skipped batches, stale weights or mixed-up optimizer state still let the loss decrease.",
  [KER + "models/", KER + "optimizers.py"],
  [("training loop", KER + "models/base_model.py: fit, fit_batch, predict, evaluate, data_wrap"), ("sequential model", KER + "models/sequential.py: add, call, backward, set_weights, clone_model, model_from_config"),
   ("optimizers", KER + "optimizers.py: compile, apply_gradients")],
  KT, KN + " Numbers of steps, layers, samples and batches are representatives. evaluate's metrics are TensorFlow's.")

CNV = "tf_encrypted/convert/"
P("K01", "A converted model computes exactly what its ONNX graph defines",
  "Converting a plain model (an ONNX graph, as produced from a TensorFlow model) yields a private model whose outputs, in order, are the graph's operators applied to the given inputs and initializers, whatever the weights "
  "and inputs: elementwise operations with broadcasting, dense and convolution layers (padding on each side, strides, depthwise), batch normalisation, pooling, reductions over image axes, activations, slicing, gathering, "
  "splitting, joining and reshaping, wired in any acyclic way, with attributes in any order and axes counted from either end. Options the converter does not support are refused, not ignored.",
  ["inputs", "programs", "configurations"], "all weights and inputs; each operator with its attributes, geometries and axes; each operator followed by layers built from the shape it announces; branching graphs with several inputs and outputs",
  "Tests convert one geometry per operator, mostly symmetric; a padding swapped between its ends, a dropped batch row or an attribute read by position shows only for other models.",
  [CNV + "nodes.py", CNV + "convert.py", KER + "layers/"],
  [("node definitions", CNV + "nodes.py: *Node.__init__, forward, nodes_dict"), ("graph wiring", CNV + "convert.py: _build_node, _build_forward, _build_initializer")],
  "abstract interpretation over exact real polynomials; canonical forms compared with the ONNX operator definitions",
  "Graphs are described literally in the shape tf2onnx gives them; tf2onnx and the ONNX runtime objects are trusted. tfe operations are taken at their contract (A- and B-properties). Shapes are representatives.")

P("K02", "Gradients of converted models are exact and training moves every weight by them",
  "For a converted model, backward returns the derivative of the outputs with respect to every input, for any output gradient, adding up over all the nodes a tensor feeds and over broadcast axes, and undoing padding, joining, "
  "splitting, permuting and reshaping. After a step of gradient descent the model computes the graph with every weight and bias moved by exactly its own gradient.",
  ["inputs", "programs", "configurations"], "all weights, inputs and output gradients; operators with a gradient and their attributes; residual, branching and multi-output graphs",
  "Tests check input gradients of single nodes with all-ones output gradients and never look at the weights after a step, nor at a tensor used twice.",
  [CNV + "nodes.py", CNV + "convert.py", KER + "optimizers.py"],
  [("node gradients", CNV + "nodes.py: *Node.backward"), ("gradient accumulation and updates", CNV + "convert.py: _build_backward"), ("weight variables", CNV + "nodes.py: weights")],
  "abstract interpretation over exact real polynomials with formal differentiation",
  "One step of SGD is analysed (optimizer rules are L03). Nodes without a gradient of their own (Slice, Gather, Softmax, depthwise convolution, BatchNormalization) are outside.")

SNN = "tf_encrypted/protocol/securenn/securenn.py"
SNT = "abstract interpretation with polynomials over symbolic bits, split by the highest bit in which mask and revealed word differ"
P("C01", "SecureNN: the sign protocol returns the right bit for every value and mask",
  "In the SecureNN protocol the sign bit of a tensor, on which every comparison, ReLU, maximum and pooling rests, is exact: for every representable value, every mask word, every coin and every sharing, the two servers "
  "end up with shares of 1 for negative and 0 for non-negative values, in the protocol's own ring. This covers private comparison of mask and revealed word (including the all-ones edge case and wrap-around), the parity in the "
  "odd ring, and the change between even, odd and prime rings; it holds for private, masked and public operands.",
  ["inputs", "randomness", "configurations"], "all values of the ring but the smallest one, all mask words, coins, permutation factors and sharings; 64- and 100-bit rings; private, masked and public tensors",
  "A test sees one random mask per run: a fault in an edge case, in the wrap-around or for one value (the sign of -1 was such a fault) shows with probability near 2^-64 or for one input only.",
  [SNN, PON, "tf_encrypted/tensor/odd_implicit.py"],
  [("sign", SNN + ": msb, lsb, bits, _lsb_*"), ("private comparison", SNN + ": _private_compare"), ("ring changes", SNN + ": cast_backing")],
  SNT, "Trusts odd-ring and prime tensor arithmetic (ring operations) and the 2^-62 bias of the odd sampler. Bits of the 100-bit CRT type are those of the centred representative: a blinded word that crosses the centre "
  "(probability |x|/2^100) is outside the claim. What the third server learns is not claimed (see DESIGN.md).")

P("C02", "SecureNN: comparison, selection, ReLU, maximum and pooling are exact",
  "In the SecureNN protocol, given the sign bit, every derived operation is exact for all values, ties included: less, greater and their or-equal forms, equality to zero, boolean operations on bits, selection, ReLU (private "
  "and public), maximum, reduce_max, argmax and max pooling over every axis, window, stride and padding it accepts, for private, masked and public operands, with the scale, shape and servers the result claims.",
  ["inputs", "configurations"], "all element orderings including ties and zeros, all kinds of operand, shapes including long rows that are processed in pieces",
  "Tests compare a few random matrices without ties, with square windows and strides, and public or masked operands are hardly run.",
  [SNN, PON],
  [("comparisons and bits", SNN + ": less, greater, *_equal, equal_zero, bitwise_*"), ("selection", SNN + ": select, relu, drelu, relu_with_cmp, maximum, reduce_max, argmax"), ("pooling", SNN + ": maxpool2d, _im2col")],
  "abstract interpretation with exhaustive symbolic case split over element orderings",
  "Windows and axes are representatives (up to four elements meet in one output). The sign bit itself is C01.")

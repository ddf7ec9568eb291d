"""Which jobs and rules decide which property."""

RULES = {
    "total": "every supported argument combination reaches a result (no raise on any path of the analysed context)",
    "value": "the value reconstructed from the result shares equals the ideal operation on the reconstructed inputs, as equality "
             "of canonical forms (polynomials mod 2^k, boolean polynomials, BDDs) in symbolic shares",
    "replicated": "the two copies of every share (or every server's copy of a public value) are equal as canonical forms",
    "placement": "every share of a result is produced on the device of the server that is entitled to hold it",
    "ring": "all shares of a result live in one ring, the one the operation promises",
    "scale": "the fixed-point label of the result equals the exponent actually carried by its value",
    "sharetype": "the arithmetic/boolean label of the result equals how its shares combine",
    "leak": "every value a server receives is hidden by a full-range mask it cannot compute (one-time-pad elimination over the server's "
            "view), so the received values are independent of the secrets",
    "placed": "every computation on a share runs on a designated player's device",
    "fresh": "in a history of operations each server draws the stream of one (key, nonce) at most once",
    "reexec": "the key or nonce of a draw changes between executions of one compiled function",
    "masked": "a masked tensor is consistent: mask shares sum to the producer's mask, both servers hold the same masked value, masked value plus "
              "mask is the value",
    "cache": "with the library's own result cache in force, each of several requests that share operands gets the result of its own arguments, "
             "its own protocol instance and its own graph",
    "tensor-total": "every supported call on a tensor class reaches a result",
    "tensor-op": "the element a tensor class stores after an operation equals the documented ring operation on the stored operands, with the shape, "
                 "dtype and factory it promises",
    "sample": "a random tensor is drawn, per element, from exactly the range it promises (the whole ring for masks), from its own stream, and is a "
              "usable tensor of its factory",
    "layer": "the output of a layer is its definition applied to input and weights, for weights freshly initialised or set by the user, with the "
             "shape the layer announces and without changing what the caller passed in",
    "gradient": "backward returns the exact derivative of the forward definition with respect to input and every weight, in their shapes",
    "loss": "a loss is its definition averaged over the batch and its grad the derivative used for training",
    "update": "an optimizer step changes every weight by its rule, using the state of all earlier steps",
    "model": "a model applies its layers in order and passes gradients back through them",
    "train": "training visits every batch of every epoch once, in order, and updates every weight with its own gradient",
    "predict": "prediction and evaluation cover every row once, in order, and reveal exactly when asked",
    "convert": "the outputs of a converted model equal the operators of its ONNX graph applied to inputs and initializers, as equality of canonical "
               "forms; a node option that is not supported is refused",
    "convert-gradient": "backward of a converted model returns the exact derivative with respect to every input, and the model after one step of "
                        "gradient descent computes the graph with every weight moved by its own gradient",
    "approx": "for every input of the case, the distance between the value computed (once over exact arithmetic, once with every truncation erring by a "
              "unit) and the true function is within the stated tolerance, as an enclosure of the difference polynomial over the whole input range",
    "headroom": "values in the supported range reach positive-only truncation with the sign bit clear",
}

BASE_ASSUMPTIONS = [
    "TensorFlow operators and the native/bool/int128 tensor classes behave as their documented ring operations (tensor classes are "
    "checked separately)",
    "shapes and parameters are representatives; element values, masks and shares are arbitrary",
]

ALLF = ("arithmetic", "boolean", "conversion", "truncation", "comparison", "layout", "order")


def fam(*fs):
    return ["aby3.%s.%d" % (f, n) for f in fs for n in (64, 128)]


SEM = ["total", "value", "replicated", "ring", "scale", "sharetype"]

def pond(*fs):
    return ["pond.%s.%s" % (f, c) for f in fs for c in ("low", "high", "fixed64_ni", "fixed100_ni")]


PROPS = {
    "B01": {"jobs": pond("arithmetic"), "rules": ["total", "value", "ring"], "floor": {"value": 2000}, "only": lambda n, r, c: "] truncate(" not in c},
    "B02": {"jobs": pond("layout"), "rules": ["total", "value", "ring", "scale", "masked"], "floor": {"value": 800}},
    "B03": {"jobs": pond("arithmetic"), "rules": ["total", "value", "scale"], "floor": {"value": 60}, "only": lambda n, r, c: "] truncate(" in c},
    "B04": {"jobs": pond("arithmetic", "layout"), "rules": ["placement", "replicated", "masked", "scale"],
            "floor": {"placement": 4000, "replicated": 400, "masked": 400, "scale": 2000}},
    "B05": {"jobs": pond("privacy"), "rules": ["leak", "placed"], "floor": {"leak": 8000}},
    "A12": {"jobs": ["io.aby3.64", "io.aby3.128"], "rules": SEM + ["placement", "leak", "placed"], "floor": {"value": 500, "leak": 500}},
    "B06": {"jobs": ["io.pond.%s" % c for c in ("low", "high", "fixed64_ni", "fixed100_ni")],
            "rules": ["total", "value", "replicated", "placement", "ring", "scale", "masked", "leak", "placed"], "floor": {"value": 600, "leak": 600}},
    "C01": {"jobs": ["securenn.sign.low", "securenn.sign.high"], "rules": ["total", "value", "ring", "scale", "masked", "replicated", "placement"],
            "floor": {"value": 120}},
    "C02": {"jobs": ["securenn.select.low", "securenn.select.high"], "rules": ["total", "value", "ring", "scale", "masked", "replicated", "placement"],
            "floor": {"value": 2000}},
    "L01": {"jobs": ["keras.forward"], "rules": ["total", "layer"], "floor": {"layer": 800}},
    "L02": {"jobs": ["keras.backward"], "rules": ["total", "gradient", "loss"], "floor": {"gradient": 200, "loss": 15}},
    "L03": {"jobs": ["keras.training"], "rules": ["total", "update", "model", "train", "predict"], "floor": {"train": 40, "update": 8}},
    "K01": {"jobs": ["convert.forward"], "rules": ["total", "convert"], "floor": {"convert": 600}},
    "K02": {"jobs": ["convert.backward"], "rules": ["total", "convert-gradient"], "floor": {"convert-gradient": 240}},
    "M01": {"jobs": ["cache.aby3", "cache.low", "cache.high", "cache.graphs"], "rules": ["cache"], "floor": {"cache": 900}},
    "T01": {"jobs": ["tensor.%s" % n for n in ("bool", "int8", "int16", "int32", "int64")], "rules": ["tensor-total", "tensor-op"], "floor": {"tensor-op": 700}},
    "T02": {"jobs": ["tensor.int128"], "rules": ["tensor-total", "tensor-op"], "floor": {"tensor-op": 150}},
    "T03": {"jobs": ["tensor.sampling"], "rules": ["sample"], "floor": {"sample": 120}},
    "A01": {"jobs": fam("arithmetic"), "rules": SEM, "floor": {"value": 200}},
    "A02": {"jobs": fam("boolean"), "rules": SEM, "floor": {"value": 60}},
    "A03": {"jobs": fam("conversion"), "rules": SEM, "floor": {"value": 100}},
    "A04": {"jobs": fam("truncation"), "rules": SEM + ["headroom"], "floor": {"value": 40}},
    "A05": {"jobs": fam("comparison"), "rules": SEM, "floor": {"value": 100}},
    "A06": {"jobs": fam("order"), "rules": SEM, "floor": {"value": 80}},
    "A07": {"jobs": fam("layout"), "rules": SEM, "floor": {"value": 100}},
    "A08": {"jobs": fam(*ALLF), "rules": ["total", "replicated", "placement"], "floor": {"placement": 500, "replicated": 500}},
    "A10": {"jobs": ["aby3.privacy.64", "aby3.privacy.128"], "rules": ["leak", "placed"], "floor": {"leak": 600}},
    "A13": {"jobs": ["aby3.approx.%s.%d" % (p, n) for p in ("division", "exponential", "powers", "softmax") for n in (64, 128)],
            "rules": ["total", "approx", "scale", "value"], "floor": {"approx": 3500}},
    "B07": {"jobs": ["pond.approx.%s" % c for c in ("low", "high", "fixed64_ni", "fixed100_ni")], "rules": ["total", "approx", "scale", "value"],
            "floor": {"approx": 200}},
    "A11": {"jobs": ["aby3.fresh.64", "aby3.fresh.128"], "rules": ["fresh", "reexec"], "floor": {"fresh": 40}},
    "A09": {"jobs": fam(*ALLF), "rules": ["scale", "sharetype"], "floor": {"scale": 200, "sharetype": 200}},
}

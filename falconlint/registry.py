TB = ["clang 18 front end and LLVM IR semantics", "falconlint's abstract transfer functions (falconlint/*.py)", "the declared model of the SHAKE256 interface (support/model_sha3)"]
CHECKS = {
    "P01": ("codec", "p01", "proof", "abstract interpretation (bit-level value graph)", "", TB),
    "P02": ("codec", "p02", "proof", "abstract interpretation (bit-level value graph)", "", TB),
    "P26": ("arith", "p26", "proof", "abstract interpretation (exact carry polynomials)", "", TB),
    "P27": ("arith", "p27", "proof", "abstract interpretation (polynomials modulo q, carry polynomials)", "", TB),
    "P03": ("codec", "p03", "proof", "abstract interpretation (bit-level value graph)", "", TB),
    "P08": ("ring", "p08", "proof", "abstract interpretation (linear forms modulo q)", "", TB),
    "P09": ("fftc", "p09", "proof", "abstract interpretation (linear forms over the reals)", "decided over the reals: floating-point rounding is outside the model", TB),
    "P07": ("verify", "p07", "proof", "abstract interpretation (ring polynomials, tables)", "", TB),
    "P10": ("signing", "p10", "other", "abstract interpretation (reals, histories of attempts)", "all data values, for histories of up to 50 failed attempts in every order of causes listed", TB),
    "P11": ("signing", "p11", "proof", "abstract interpretation (rational functions over the reals)", "decided over the reals, for all inputs: floating-point rounding is outside the model", TB),
    "P12": ("signing", "p12", "proof", "abstract interpretation (rational functions over the reals)", "decided over the reals, for all inputs: floating-point rounding is outside the model", TB),
    "P18": ("tree", "p18", "proof", "abstract interpretation (rational functions over the reals), induction over tree levels", "decided over the reals, for all inputs: floating-point rounding is outside the model", TB),
    "P19": ("tree", "p19", "proof", "abstract interpretation (rational functions over the reals), induction over tree levels", "decided over the reals, for all inputs: floating-point rounding is outside the model", TB),
    "P13": ("hashing", "p13", "other", "abstract interpretation (absorbed sequences, tables over candidates)", "all candidate values at every place; rejection histories as listed in the evidence", TB),
    "P16": ("sampler", "p16", "other", "abstract interpretation (absorbed sequences)", "reads as listed (lengths around block boundaries), all entropy", TB),
    "P17": ("sampler", "p17", "other", "abstract interpretation (reals, step functions, fixed-point value graph)", "all data values, attempt histories as listed; floating point read as reals", TB),
    "P15": ("ntru", "p15", "other", "abstract interpretation (polynomials over the integers), induction over degrees", "all coefficient values; reduction up to 3 steps and gcd up to 8 divisions, levels by induction", TB),
    "P04": ("compress", "p04", "other", "abstract interpretation (bit-level value graph, histories of coefficients)", "each code family is decided for all symbolic coefficient bits; unary lengths and positions come from the families listed in the evidence, not every combination", TB),
    "P05": ("compress", "p05", "other", "abstract interpretation (bit-level value graph, histories of malformed codes)", "each family of malformed bodies is decided for all symbolic bits around the defect; the families listed in the evidence are not every byte string", TB),
    "P14": ("keygen", "p14", "other", "abstract interpretation (path facts, tables, histories of attempts, reals)", "all data values, for candidate histories as listed in the evidence; floating point read as reals", TB),
    "P20": ("keygen", "p20", "proof", "abstract interpretation (ring polynomials, tables, rational functions over the reals)", "decided over the reals, for all inputs: floating-point rounding is outside the model", TB),
    "P21": ("effects", "p21", "proof", "points-to and mod/ref effect analysis over the call graph", "", ["clang 18 front end and LLVM IR semantics", "falconlint/checks/effects.py"]),
    "P22": ("witness", "p22", "proof", "type-level witnesses (constraints evaluated by the compiler), linkage of header definitions", "the compiler decides each listed instantiation", ["clang 18 front end"]),
}

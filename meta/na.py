"""Properties static analysis does not decide here, and why."""
NA = {
    "P06": "Needs the floating-point error of a whole signature bounded for every generated key, and a probability over the sampler's output; what is decidable of it from the source is claimed as P04, P07, P10, P11 and P20.",
    "P23": "A statement about a probability distribution over real-valued parameters to a precision of 2^-60; no sound static argument in reach bounds the divergence of the floating-point code. That the code computes the specified sampler step by step is claimed as P17.",
    "P24": "Rounding errors of 1024-point transforms and of divisions and square roots over key-dependent, unbounded values: sound interval bounds blow up through the tree's 10 levels of division. The checks read doubles as reals (P09, P11, P12, P18, P19) and say so.",
    "P28": "Termination of rejection loops is a probabilistic statement that depends on the distribution of keys and points, not on the source; deterministic termination is part of P04, P05 and P15 where it holds.",
}

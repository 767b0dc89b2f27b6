"""The properties: id -> (title, statement, over, quantifier text, why tests cannot, files, mechanisms)."""
P = {}


def p(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P[pid] = {"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["include/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}}


p("P01", "Public key encoding and decoding are exact inverses",
  "Encoding a public key polynomial over Z_q and decoding the bytes gives the polynomial back, for both parameter sets. Every byte string the decoder accepts re-encodes to exactly the same bytes, so a public key has one encoding. Every byte of the advertised key length is written.",
  ["inputs", "configurations"], "all q^N polynomials and all byte strings of the key length, N = 512 and 1024",
  "The repository has no codec test that runs here; a round trip over random keys never reaches coefficients near q or non-canonical 14-bit values.",
  ["encoding.hpp", "decoding.hpp"], [("14-bit packing", "encoding::encode_pkey"), ("14-bit unpacking, range check", "decoding::decode_pkey")])
p("P02", "Secret key encoding and decoding are exact inverses",
  "Encoding secret key polynomials f, g, F whose coefficients fit the symmetric range of the encoding and decoding the bytes gives the same polynomials, for both parameter sets. Every accepted byte string re-encodes to the same bytes, so a secret key has one encoding.",
  ["inputs", "configurations"], "all in-range f, g, F and all byte strings of the key length, N = 512 and 1024",
  "Coefficients at the ends of the range (+-31, +-15, +-127) practically never occur in sampled keys.",
  ["encoding.hpp", "decoding.hpp"], [("6/5/8-bit packing", "encoding::encode_skey"), ("sign extension, forbidden values", "decoding::decode_skey")])
p("P03", "Decoders fail closed on malformed keys and signatures",
  "Decoding a public key, secret key or signature whose header byte is not the one of the parameter set reports failure. Whenever a key is reported as decoded, every coefficient is in the valid range of the scheme; whenever a key is rejected, no attacker-chosen coefficient is left in the output. A signature is only reported as decoded if its compressed body was, and then the salt is bytes 1 to 40 of it.",
  ["inputs", "configurations"], "all byte strings of the key and signature lengths, N = 512 and 1024",
  "Rejection of every malformed byte string cannot be sampled; existing tests only see well-formed ones.",
  ["decoding.hpp"], [("header comparison", "decoding::decode_pkey, decode_skey, decode_sig"), ("coefficient range check", "decoding::decode_pkey"), ("forbidden minimum values", "decoding::decode_skey")])
p("P07", "Verification accepts exactly the short solutions of the signature equation",
  "Verification accepts if and only if the public key and the signature decode and, with c the hash of the signature's salt followed by the whole message, s2 the decoded polynomial and s1 = c - s2*h mod q centred around zero, the squared norm of (s1, s2) over the integers is at most the bound of the parameter set (34034726 for N=512, 70265242 for N=1024). Large attacker-chosen coefficients never make the norm wrap: a signature with a coefficient of absolute value q or more is rejected.",
  ["inputs", "configurations"], "all public keys, signatures and messages, N = 512 and 1024",
  "The only end-to-end test verifies honest signatures; forgeries near the bound or with huge coefficients are never tried.",
  ["verification.hpp", "falcon.hpp", "polynomial.hpp"], [("signature equation and norm", "verification::verify"), ("key decoding, bound per parameter set", "falcon::verify")])
p("P26", "72-bit unsigned arithmetic is exact modulo 2^72",
  "Addition, subtraction and negation of 72-bit integers are exact modulo 2^72, comparison is the order of the integers, and conversion from and to big- and little-endian bytes is exact and inverse.",
  ["inputs"], "all pairs of 72-bit integers, all 9-byte strings",
  "2^144 operand pairs; carries between the 64-bit and the 8-bit limb are rare in samples.",
  ["u72.hpp"], [("carry and borrow", "u72::u72_t::operator+, operator-"), ("comparison", "operator>, operator<"), ("byte conversion", "from_be_bytes, from_le_bytes, to_be_bytes, to_le_bytes")])
p("P27", "Field and wide multiplication arithmetic is exact and canonical",
  "For all canonical elements of Z_q, addition, subtraction, negation, multiplication, inversion, division and exponentiation give the canonical representative of the mathematically correct result (the inverse of zero being zero), and comparisons are those of the representatives. The 64x64-bit wide multiplication used for sampling gives exactly the 128-bit product.",
  ["inputs"], "all pairs of elements of Z_q, all exponents, all pairs of 64-bit integers",
  "The arithmetic test samples random pairs: boundary values, and the wide multiplication's carries, are not exercised.",
  ["ff.hpp", "samplerz.hpp"], [("Barrett reduction", "ff::ff_t::operator*"), ("extended gcd", "ff::xgcd, ff_t::inv"), ("carry propagation", "samplerz::full_mul_u64")])
p("P08", "NTT and inverse NTT are the exact negacyclic transforms over Z_q",
  "The forward transform maps a polynomial over Z_q to its values at the N distinct roots of x^N+1 modulo q, the inverse transform undoes it exactly, and every output is canonical; so pointwise products of transforms are negacyclic products. This holds for N = 512 and 1024.",
  ["inputs", "configurations"], "all q^N polynomials, N = 512 and 1024",
  "The test multiplies a few random polynomials; one wrong index or table entry for rare values, or non-canonical outputs at boundary values, go unnoticed.",
  ["ntt.hpp", "ff.hpp"], [("butterflies", "ntt::ntt, ntt::intt"), ("powers of zeta", "ntt::compute_powers_of_zeta tables")])
p("P09", "FFT, split, merge and pointwise polynomial arithmetic compute their maps",
  "For every size 2 to 1024 used, the complex FFT gives the values at the N distinct roots of x^N+1, the inverse FFT undoes it, splitting a transform gives the transforms of the even and odd coefficients, merging undoes splitting, and the adjoint is the conjugate. Addition, subtraction, multiplication and division of polynomials in transformed form (complex and modulo q) are the pointwise operations.",
  ["inputs", "configurations"], "all complex vectors, all sizes 2..1024; all elements of Z_q; doubles read as real numbers, i.e. up to rounding",
  "The FFT test transforms forth and back only; a wrong root, a wrong split or a wrong small size cancels or is never reached there.",
  ["fft.hpp", "polynomial.hpp"], [("butterflies and root table", "fft::fft, fft::ifft, POWERS_OF_zeta"), ("splitting and merging", "fft::split_fft, fft::merge_fft"), ("pointwise arithmetic", "polynomial::add, sub, mul, div, neg, add_to")])

p("P10", "Signing emits only bound-checked, fully compressed, freshly salted signatures",
  "A signature is emitted only for an attempt whose full squared norm |s0|^2+|s1|^2 was found to be at most the bound of the parameter set and whose s2 was compressed in full; otherwise a new point is sampled, for any number of attempts. What is emitted consists of the header byte 0x30 + log2(N), the 40-byte salt that was hashed with the whole message, all of it fresh generator output, and the compressed s2 of that same attempt. If the secret key does not decode, signing fails and leaves the signature buffer untouched.",
  ["histories", "configurations"], "all sequences of rejected and failed attempts (analysed up to 50), all messages, N = 512 and 1024",
  "A rejected or an uncompressible attempt is rare for honest keys, sequences of them practically never occur in a test.",
  ["signing.hpp", "falcon.hpp", "ntru_gen.hpp"], [("rejection loop", "signing::sign"), ("norm", "ntru_gen::sqrd_norm"), ("salt", "prng::prng_t::read")])
p("P11", "Signing samples around the right target and compresses the right half",
  "With c the hashed message in transformed form and B=[[g,-f],[G,-F]], every attempt samples z around t = (c,0)*B^-1 with the key's tree and the minimal standard deviation of the parameter set, and takes (s0,s1) = (t-z)*B as its point. What is compressed is s1 of that same attempt, transformed back and rounded to integers.",
  ["inputs", "histories", "configurations"], "all bases B, trees and message hashes, every attempt, N = 512 and 1024; doubles read as real numbers, i.e. up to rounding",
  "A wrong coefficient, constant or stale vector in a later attempt only shows as a rejection or as a subtly different distribution.",
  ["signing.hpp", "falcon.hpp"], [("target", "signing::sign, t0 and t1"), ("lattice point", "signing::sign, s0 and s1"), ("parameters", "falcon::sign")])
p("P12", "Signing from an encoded key rebuilds the key's basis and tree",
  "Signing from secret key bytes uses G = round((g*F+q)/f), the basis [[g,-f],[G,-F]] in transformed form, and the Falcon tree built from its Gram matrix B*adj(B) and normalised with the standard deviation of the parameter set (165.736617183 for N=512, 168.388571447 for N=1024).",
  ["inputs", "configurations"], "all f, g, F a secret key can hold, N = 512 and 1024; doubles read as real numbers, i.e. up to rounding",
  "The repository's signing test does not run here; a wrong sign or sigma can still give signatures that verify.",
  ["falcon.hpp", "keygen.hpp"], [("G from the NTRU equation", "falcon::recompute_G"), ("basis", "falcon::compute_matrix_B"), ("Gram matrix and sigma", "falcon::compute_falcon_tree")])
p("P18", "The Falcon tree is the normalised LDL* tree of the Gram matrix",
  "For every self-adjoint positive 2x2 Gram matrix over the transformed ring, the Falcon tree holds at each node L10 = G10/G00, continues left with the even and odd halves of G00 and right with those of G11 - |L10|^2*G00, and has the two diagonal entries of the last level as leaves; nothing already stored is lost. Normalisation replaces each leaf by sigma/sqrt(leaf) and nothing else. The Gram matrix of a basis is B*adj(B).",
  ["inputs", "configurations"], "all self-adjoint positive matrices, all 19 levels of the two trees, N = 512 and 1024; doubles read as real numbers, i.e. up to rounding",
  "No test looks at the tree; signing with a wrong subtree still gives signatures that verify, with a distribution that leaks the key.",
  ["falcon_tree.hpp", "keygen.hpp"], [("LDL* step", "falcon_tree::ldl"), ("recursion and layout", "falcon_tree::ffldl"), ("leaf normalisation", "falcon_tree::normalize_tree"), ("Gram matrix", "keygen::compute_gram_matrix")])
p("P19", "Fast Fourier sampling conditions every coordinate on those after it",
  "At every level of the recursion, z1 is sampled around t1 with the right subtree, then z0 around t0 + (t1 - z1)*L10 with the left subtree, each by splitting the target, sampling both halves and merging them. At the leaves the two integers are drawn independently around the real parts of t0 and t1 with the standard deviation stored in the leaf and the minimal one given. All randomness comes from the generator given.",
  ["inputs", "configurations"], "all targets and trees, all 21 levels of the two recursions, N = 512 and 1024; doubles read as real numbers, i.e. up to rounding",
  "A wrong conditional centre still yields lattice points and mostly valid signatures; only the distribution, which protects the key, is lost.",
  ["ffsampling.hpp"], [("recursion", "ffsampling::ff_sampling"), ("leaf", "ffsampling::ff_sampling<1, ...>")])
p("P13", "Hashing to a point is the specified rejection sampling of SHAKE256",
  "Hashing to a point absorbs the salt followed by the whole message into SHAKE256 and reads the output as consecutive big-endian 16-bit candidates. Exactly the candidates below 61445 = 5q are accepted, and the N coefficients are the first N accepted candidates reduced modulo q, in order, whatever the sequence of rejections and wherever block boundaries fall.",
  ["inputs", "histories", "configurations"], "all salts, messages of every length, all sequences of rejections (every coefficient at every place of a block, accepted or rejected), N = 512 and 1024",
  "Candidates at the threshold occur once in 65536, rejections at a block boundary or of a whole block practically never; signing and verifying agree on a wrong point.",
  ["hashing.hpp"], [("rejection sampling", "hashing::hash_to_point"), ("reduction modulo q", "ff::ff_t constructor")])
p("P16", "Every generator is seeded with 256 bits of entropy and is never rewound",
  "A pseudo-random generator is SHAKE256 over exactly 32 bytes, every bit of which is system entropy used nowhere else; reading gives the next bytes of its output, each exactly once, for any sequence of lengths, and writes nothing beyond the bytes asked for.",
  ["inputs", "histories"], "all entropy, sequences of reads across block boundaries",
  "Output of a badly seeded generator looks uniform; no test can see that its seed has too little entropy.",
  ["prng.hpp"], [("seeding", "prng::prng_t::prng_t"), ("reading", "prng::prng_t::read")])
p("P17", "The integer sampler is the specified SamplerZ",
  "The base sampler compares nine fresh bytes, as a little-endian 72-bit number, with the 18 cumulative thresholds of the specification; the Bernoulli trial with probability ccs*exp(-x) computes the specified degree-12 fixed-point polynomial of x modulo ln 2, shifts it by at most 63 bits and compares its bytes with fresh random bytes, most significant first, until they differ. For centre mu = floor(mu) + r the sampler draws z0 and a sign bit b per attempt, sets z = b + (2b-1) z0 and x = (z-r)^2/(2 sigma'^2) - z0^2/(2 sigma_max^2), and returns z + floor(mu) for the first accepted attempt.",
  ["inputs", "histories"], "all 2^72 base values, all 256 byte histories per comparison, all base samples and signs, sequences of rejected attempts, all shifts including those beyond 63; doubles read as real numbers, i.e. up to rounding",
  "Far tail values occur with probability below 2^-50; a wrong table entry or exponent changes a distribution that known answers sample at a few points.",
  ["samplerz.hpp"], [("base distribution", "samplerz::base_sampler"), ("exponential", "samplerz::approx_exp"), ("Bernoulli trial", "samplerz::ber_exp"), ("sampler", "samplerz::samplerz")])
p("P15", "The NTRU solver returns an exact, reduced solution of f G - g F = q",
  "Polynomial multiplication over big integers is exact, and solving recurses on the field norms of f and g, takes at degree 0 the extended gcd, and lifts by F = F'(x^2) g(-x), G = G'(x^2) f(-x), so that f G - g F = q holds exactly at every level. Reduction subtracts the same multiple of f and g from F and G, the rounded quotient of their leading 53 bits, until the quotient is zero or F and G are shorter than f and g. A gcd other than 1 at the bottom makes the whole solution fail.",
  ["inputs", "histories"], "all big integer polynomials of all sizes 1 to 1024, all sequences of reduction steps up to 3, all gcd computations up to 8 divisions",
  "Nothing tests the solver here; wrong corner cases (unequal lengths, negative extremes, non-coprime norms) only show as rare unusable keys.",
  ["ntru_gen.hpp", "karatsuba.hpp"], [("multiplication", "karatsuba::karatsuba, karamul"), ("recursion", "ntru_gen::ntru_solve"), ("norms, lifting", "field_norm, lift, galois_conjugate"), ("reduction", "ntru_gen::reduce"), ("extended gcd", "ntru_gen::xgcd")])
p("P04", "Signature compression and decompression are exact inverses",
  "A polynomial whose codes (sign, 7 low bits, unary rest per coefficient) leave at least one bit of the signature body free is compressed in full, to exactly these codes followed by zeros, and decompressing gives it back; every other polynomial is reported not to fit. Header and salt are left alone and nothing outside the buffers is read or written. Compression and decompression always end.",
  ["inputs", "configurations"], "all integer polynomials, including single coefficients of any size, N = 512 and 1024; code lengths up to, at and beyond the room there is",
  "The test compresses a few polynomials of small coefficients: long unary codes, codes that end at the last bits or do not fit do not occur.",
  ["encoding.hpp", "decoding.hpp"], [("compression", "encoding::compress_sig"), ("decompression", "decoding::decompress_sig")])
p("P05", "Every malformed compressed signature is rejected",
  "Decompression rejects every body that compression does not emit: a negative zero anywhere, any bit set after the last code, a last code that does not end inside the body, fewer than N codes. A rejected body leaves a zero polynomial. Nothing outside the signature is read, whatever its bytes.",
  ["inputs", "configurations"], "all bodies with a defect at any coefficient and bit position, N = 512 and 1024",
  "Malformed bodies are made by attackers, not by tests: a forged second encoding of a signature needs one particular bit.",
  ["decoding.hpp"], [("unique zero, unary end, trailing bits", "decoding::decompress_sig"), ("bit extraction", "extract_8_contiguous_bits, extract_rem_contiguous_bits_in_byte")])
p("P14", "Key generation only returns keys that passed every test",
  "The f, g, F, G returned satisfy all of: f and g fit the key encoding (+-31 for N=512, +-15 for 1024), f is invertible modulo q, the Gram-Schmidt norm max(|f|^2+|g|^2, q^2(|f*|^2+|g*|^2)) is at most 1.17^2 q, F and G solve the NTRU equation for these very f, g, and F fits +-127. If any test fails all polynomials are drawn anew; each coefficient of f and g is the sum of 4096/N samples of deviation 1.43300980528773.",
  ["inputs", "histories", "configurations"], "all draws, histories of rejected candidates at every gate, N = 512 and 1024",
  "A candidate that fails exactly one test at one coefficient is rare; a key that slips through works most of the time.",
  ["ntru_gen.hpp"], [("candidate loop", "ntru_gen::ntru_gen"), ("invertibility", "is_poly_invertible"), ("norm", "gram_schmidt_norm, sqrd_norm"), ("range", "is_encodable"), ("sampling", "gen_poly")])
p("P20", "The public key, basis and tree belong to the secret key",
  "The public key is h = g/f modulo q with the f, g of the encoded secret key, and the two byte strings of a key pair encode h and f, g, F of the same generation. In-memory key generation returns the basis [[g,-f],[G,-F]] in transformed form, the Falcon tree of its Gram matrix normalised with the standard deviation given, and h.",
  ["inputs", "configurations"], "all f, g, F, G, all standard deviations, N = 512 and 1024; doubles read as real numbers, i.e. up to rounding",
  "A swapped polynomial or a wrong tree is a consistent key: signatures verify or fail for reasons no unit test looks at.",
  ["keygen.hpp", "falcon.hpp"], [("public key", "keygen::compute_public_key"), ("encoded key pair", "falcon::keygen"), ("basis and tree", "keygen::keygen")])
p("P21", "Calls share no state and never write their inputs",
  "No key generation, signing or verification writes a global, function-static or thread-local variable (but for constant tables initialised once), or uses library functions with state of the process. So calls from several threads, and repeated calls, never influence each other. Verification writes none of its arguments, signing only the signature and the generator given, key generation only its outputs.",
  ["schedules", "inputs", "configurations"], "all interleavings of calls on different buffers, all inputs, N = 512 and 1024",
  "The tests are single-threaded; a scratch buffer made static, or a cached value of the first call, passes every one of them.",
  ["falcon.hpp", "keygen.hpp", "signing.hpp", "verification.hpp"], [("entry points", "falcon::keygen, sign, verify, recompute_G, compute_matrix_B, compute_falcon_tree, keygen::keygen")])
p("P22", "Only the two parameter sets compile, and headers link in many units",
  "Every public function, and each building block, can be instantiated for the parameters of Falcon-512 and Falcon-1024 (transforms: for the sizes in use) and refuses to compile for any other degree, mixed bound or mixed signature length. Key and signature lengths are 897/1281/666 and 1793/2305/1280 bytes. The headers define nothing that clashes when several translation units include them.",
  ["configurations"], "the listed instantiations of 33 templates (18 wrong degrees, mixed bounds and lengths, sizes 0, 8, 11, ...)",
  "A test only compiles right instantiations; what must not compile never does appear in one.",
  ["falcon.hpp", "utils.hpp", "encoding.hpp", "decoding.hpp", "signing.hpp", "ntt.hpp", "fft.hpp"], [("constraints", "requires clauses of all templates"), ("lengths", "falcon_utils::compute_pkey_len, compute_skey_len, compute_sig_len")])

p("P06", "Honest signatures verify and signing ends after few attempts",
  "Every signature emitted for a message under a generated key verifies under the matching public key. The expected number of attempts per signature is below two.",
  ["inputs", "histories", "configurations"], "all generated keys, all messages, all randomness, N = 512 and 1024",
  "A failure rate of 2^-20 is invisible to a few dozen signatures, and the signing tests do not run here.",
  ["signing.hpp", "verification.hpp"], [("rejection loop", "signing::sign"), ("acceptance", "verification::verify")])
p("P23", "The sampler's output distribution is close to the discrete Gaussian",
  "For every centre and every standard deviation between the minimal and the maximal one, the integers returned have a distribution whose Renyi divergence from the discrete Gaussian is as small as the security proof needs.",
  ["inputs"], "all centres, all standard deviations, all randomness",
  "Statistical tests see deviations of 10^-3, the proof needs 2^-60.",
  ["samplerz.hpp"], [("sampler", "samplerz::samplerz")])
p("P24", "Floating-point error never changes a security-relevant decision",
  "The rounding errors of the double-precision transforms, tree and targets stay so small that the rounded signature polynomial is the exact lattice point, and that every standard deviation handed to the sampler lies between the minimal and the maximal one.",
  ["inputs", "configurations"], "all keys and messages, N = 512 and 1024",
  "Error growth on worst-case keys does not show on random ones.",
  ["fft.hpp", "falcon_tree.hpp", "ffsampling.hpp", "signing.hpp"], [("transforms", "fft::fft, fft::ifft"), ("tree", "falcon_tree::ffldl"), ("rounding", "signing::sign")])
p("P28", "Key generation and signing end with probability one",
  "With a generator whose output is uniform, rejection loops of key generation, hashing and signing end with probability one, within the expected number of repetitions of the specification.",
  ["inputs", "histories"], "all randomness",
  "A loop that never ends for one key in 2^30 is not met by a test.",
  ["ntru_gen.hpp", "hashing.hpp", "signing.hpp", "samplerz.hpp"], [("candidate loop", "ntru_gen::ntru_gen"), ("rejection loops", "signing::sign, hashing::hash_to_point, samplerz::samplerz")])

"""Which analysed families and which static rules decide each property."""
import gen, layout
D = "dataflow over the LLVM IR of each operation, one Boolean function per stored bit; the function of every result bit must coincide with the reference function"
ALL = ["bitwise", "reductions", "addsub", "mul", "divmod", "equality", "relational", "caseeq", "shifts", "bitsel", "slices", "writes", "concats", "conversions", "arrays", "members", "bignum"]
TEXT = ["parse", "strs", "decimals"]
ARI = ["addsub", "mul", "divmod"]
A0 = ["operands are in canonical form (C12)", "widths, signedness and operand kinds of the analysed grid; other instantiations of the same templates are not analysed"]
def own(*fam, **kw): return dict(families=list(fam) + ([] if set(fam) & {"arrays", "members", "decimals", "widediv"} and "strs" not in fam else ["sweep"]), rule=kw.pop("rule", D), assumptions=A0, **kw)
def cross(rule, fam=None, **kw): return dict(families=(fam or ALL) + ["sweep"], rule=rule, assumptions=A0, cross=True, **kw)
BASE = (" Instantiations outside the grid are not analysed. Trusted: clang's front end and SROA, the analyser and its library models, the reference functions.")
MULNOTE = "Products of single-word operands: every operand value (the product is an uninterpreted function of the properly extended operands). Products of multi-word operands: every value of a free window of bits in each operand, placed at every word's ends and across word boundaries over constant backgrounds; other multi-word operands are not covered." + BASE
DECNOTE = "Every value of up to three free digits, at several positions of literals of several lengths (short, up to and beyond the width) whose other digits are constants; all digits of literals of at most three digits. Other digit strings are not covered." + BASE
DECNOTE2 = "Vectors of up to 10 bits: every value. Wider ones: every value of a free window of 8 bits at the bottom, at the top and across word boundaries over constant backgrounds, and around the powers of ten where groups of digits change. Other values are not covered." + BASE
IDXNOTE = "Every vector value; run-time indices and amounts of up to 16 bits are entirely free, of wider ones the low, a middle and the top part are free in turn while the rest is constant." + BASE
CHECKS = {
    "C01": own("bitwise", "bignum"), "C02": own("reductions", "bignum"), "C03": own(*ARI), "C04": own("addsub", "bignum"), "C05": own("mul", "bignum", level="other", note=MULNOTE, explanation=MULNOTE), "C06": own("divmod"),
    "C07": own("equality", "bignum"), "C08": own("relational", "bignum"), "C09": own("caseeq"), "C10": own("shifts", "bignum", note=IDXNOTE), "C11": own("shifts", "bignum", note=IDXNOTE),
    "C12": cross("the functions of the storage bits of a result beyond its declared width must be the canonical ones (zero, or the top bit's for signed single-word storage)", fam=ALL + ["parse"]),
    "C13": cross("the static type of each expression (width, signedness, number of states), read from constants in the instantiated code, must be the IEEE 1800 one"),
    "C14": own("conversions", "bignum"), "C15": own("bitsel", "bignum", note=IDXNOTE), "C16": own("slices", "bignum"), "C17": own("writes", "bignum"), "C18": own("concats", "bignum"), "C19": own("conversions", "bignum"), "C20": own("conversions", "reductions", "bignum"),
    "C21": own("parse"), "C22": own("parse", level="other", note=DECNOTE, explanation=DECNOTE), "C23": own("strs"), "C24": own("strs", "decimals", "parse"), "C25": own("arrays"), "C26": own("arrays"),
    "C27": own("members", static=[layout.check], technique="type-level obligations (static_assert over every type of the grid, decided by clang's type checker) and the per-bit dataflow for member accesses",
               rule="size, alignment, storage type, trivial copyability and base type of every vector, struct, union and array type of the grid equal the documented ones; members are exactly their bit range"),
    "C28": cross("no instruction reachable from a value operation under a satisfiable guard throws, aborts, allocates or calls a function outside the library; every path returns"),
    "C29": cross("no reachable access to a mutable global; operands are unchanged afterwards", fam=ALL + TEXT),
    "C30": cross("no reachable out-of-bounds access, oversized shift, signed overflow, zero divisor or missing return under a satisfiable guard, and no result bit that depends on storage never written", fam=ALL + TEXT),
    "C32": own("decimals", level="other", note=DECNOTE2, explanation=DECNOTE2), "C33": own("widediv", "bignum", level="other", technique="abstract interpretation of LLVM IR with partly constant operands (per-bit Boolean functions of free windows of the operands)",
               explanation="The quotient of two wide vectors has no tractable per-bit form, so each obligation fixes the operands except for a free window of bits in each (4-7 bits quick, more thorough) and decides every result bit as a function of all window values at once. Operands outside these families are not covered.",
               note="Not a proof over all operands: every value of the free windows over fixed constant backgrounds chosen around the word boundaries, powers of two and operand relations the shift-and-subtract loop distinguishes, plus pseudo-random backgrounds. Same trusted base as the other checks."),
    "C31": own("bitwise", "addsub", "mul", "divmod", "equality", "relational", "shifts"),
}
NOTE = ("Every operand value of each analysed instantiation is covered (no sampling, no path enumeration, no solver); instantiations outside the grid are not. "
        "Trusted: clang's front end and SROA, the analyser and its library models, the reference functions. Obligations that depend on an uninterpreted product or quotient are reported undecided, never as violations.")
NA = {
    "C34": "exponentiation is not reachable through the public vector types (no operator calls big_num::power), its recursive calls do not even instantiate for general arguments, and its result is an iterated product with no tractable canonical form; there is nothing a user can observe.",
}

"""technique and assurance of each check, for MANIFEST.json"""
TRUST = (" Trusted: TLC, the driver's encoding of results (drivers/execute.py), and that inputs outside the generated "
         "ones behave alike; conformance is bounded by the generated operations, design checks by their cfg constants.")
T = "TLA+/TLC: %s; behaviours generated from the model and random programs run on the real code, recorded traces validated by TLC against TraceDice.tla"
NOTES = {
    "C01": (T % "MC_Dice checks the convolution law against all worlds of dice",
            "Every reported distribution of a generated literal equals, up to scale and exactly (unbounded naturals), the law of the specification." + TRUST),
    "C02": (T % "MC_Dice checks the order-statistics recursion against all worlds of dice",
            "Exact law of keep and drop literals, up to scale; the recursion of the specification is itself checked against brute force by TLC." + TRUST),
    "C03": (T % "MC_Laws checks the operator laws against all outcome pairs",
            "Exact law of nested operators in programs and on distribution objects (Python API)." + TRUST),
    "C04": (T % "MC_World relates the joint law of the interpreter model to an enumeration of all worlds, MC_Nest the same for assignments inside expressions",
            "Exact law of every variable and line under the joint law. Known finding K1 (weights of a reused non-uniform roll) is accepted only as exactly the product rule over consistent outcomes." + TRUST),
    "C05": (T % "MC_World checks that Tight is the end of the enumerated worlds (MC_Nest for assignments inside expressions)",
            "min and max of every line and variable equal the ends of the exact law; known finding K2 accepted only where the operands' own ends give that value." + TRUST),
    "C06": (T % "MC_World checks that RollSet is exactly the set of values of the worlds (MC_Nest for assignments inside expressions)",
            "Each recorded roll must be a behaviour of the nondeterministic roll action; values logged per call, unlogged intermediate values inferred by TLC." + TRUST),
    "C07": (T % "MC_Freq checks that the acceptance region covers the true binomial mass and excludes displaced laws",
            "Rolled frequencies, per cell and jointly, inside the Bernstein bound (2e-13 per cell) of the exact law; statistical, so small distortions below the bound are not seen." + TRUST),
    "C08": (T % "MC_Laws checks identities of the derived figures",
            "Averages, bounds, cumulative tables and normalised tables within 1e-9 (probability) and 1e-7 (average) of the exact rationals." + TRUST),
    "C09": (T % "MC_World relates ZeroJ to worlds in which a divisor is zero",
            "Error status of every query on generated programs with divisions." + TRUST),
    "C10": (T % "MC_Text enumerates token sequences and checks the grammar's own ambiguity and spacing laws",
            "Grouping judged by acceptance and by the values the line then gives; exhaustive over short token sequences, random beyond." + TRUST),
    "C11": (T % "MC_Session enumerates call histories of the interpreter state machine with action properties",
            "Every call of a recorded session, also on states shared between interpreters and on lines parsed earlier, must be a transition of the interpreter state machine; returned results are looked at again later and spoilt on purpose." + TRUST),
    "C12": (T % "MC_Many explores every interleaving of interpreters at work and MC_Session call histories, both replayed; determinism judged in TLC by a history-to-result memo over processes and hash seeds",
            "The same history always shows the same result: across interpreters, threads, interleavings (paced line by line), processes and hash seeds; operands unchanged by combination." + TRUST),
    "C13": (T % "MC_Merge checks the merge loop in every order against the meaning of the constraints",
            "Every set reports possible/complies as the constraints put in say, over the full assignment space of the run; every order of merging in the model." + TRUST),
    "C14": (T % "MC_Cost checks compositionality of the cost model, MC_Nest for assignments inside expressions",
            "Exact integer cost of generated programs, asked repeatedly and around other queries; a cost query that hangs or fails is a violation." + TRUST),
    "C15": (T % "MC_Text checks that the model's text form parses back to the same tree",
            "Text form reparsed by the model and by the real parser, same tree, same distribution, bounds and cost; contained variables equal the names read." + TRUST),
    "C16": (T % "MC_Laws checks the chart clauses",
            "Bar heights, curves, labels and average marks read from the drawn figure, returned image compared with the drawn pixels. Known findings K5, K6 accepted only as exactly the described drawing." + TRUST),
    "C17": (T % "MC_Text checks that the reported place is the first character or token no valid line continues",
            "Exhaustive over short token sequences, random and mutated strings beyond: rejection, error class, caret text, named token and position." + TRUST),
}

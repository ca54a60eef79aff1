"""checks of a property that do not go through the contract harness; each returns the violations it found"""
import specgen


def generator(ck):
    m, cov = specgen.check(str(ck.seed), 600 if ck.thorough else 60)
    ck.cover = cov
    ck.explore = {"distinct_nontrivial": cov["random_source_trees"] + cov["fork_pairs"], "rule": "every ordered pair of forks; the recorded sources; random source trees in which each fork defines, redefines or hides constants, containers, aliases, traits and functions (seeded; each tree is distinct and redefines items across forks)",
                  "samples": specgen.SAMPLES[:1]}
    ck.log("generator: %s, %d violated" % (cov, len(m)))
    return m

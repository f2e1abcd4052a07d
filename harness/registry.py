"""Which harness decides which property, with which parameters and bounds."""

# How /repo's sources are compiled for a harness.
#   defs: for the repository sources, hdefs: for the harness files
PROFILES = {
    "std": {"defs": [], "hdefs": []},
}
HARNESSES = []
SAT = ((),)                                  # CBMC's own SAT back end
SMT = (("--cvc5",), ("--z3",))               # first verdict wins
ALL = SAT + SMT


class H:
    def __init__(self, name, src, entry, props, unwind, defs=None, profile="std", tier="quick",
                 note="", opts=(), unwindset=(), cost=10, replay_timeout=10, solvers=((),), drop=(), optional=False):
        self.name, self.src, self.entry, self.props = name, src, entry, props.split()
        self.unwind, self.defs, self.profile, self.tier = unwind, dict(defs or {}), profile, tier
        self.note, self.opts, self.unwindset, self.cost = note, opts, list(unwindset), cost
        self.replay_timeout, self.solvers, self.drop = replay_timeout, solvers, drop
        self.optional = optional      # a depth configuration: without a verdict it says nothing (UNDECIDED)
        assert name not in [h.name for h in HARNESSES], name
        HARNESSES.append(self)

    def bounds(self):
        return " ".join("%s=%s" % kv for kv in sorted(self.defs.items())) + (" " + self.note if self.note else "")


def for_property(prop, tier):
    return [h for h in HARNESSES if prop in h.props and (tier == "thorough" or h.tier == "quick")]


COMMON = ["bounds as listed per harness; behaviour beyond them is outside the claim",
          "libc memory/string functions behave as the byte-loop models in harness/vh_libc.c",
          "LP64 little-endian data model (x86-64 Linux), POSIX code paths"]
EXTRA = {}
NOTES = {}


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])


# ------------------------------------------------------------------------------------- vectors
VEC = ["vector_ops.c", "vh_alloc.c"]
import reg_all  # noqa: E402,F401

"""Which machinery decides which property."""
LEVEL = {}
NOTE, TECH, NA = {}, {}, {}
TECH_DEFAULT = "runtime monitoring: real code under AddressSanitizer+UBSan, every result compared by an independent reference-model oracle over seeded hostile workloads"
NOTE_DEFAULT = "Exploration: a fixed number of seeded cases per tier; violations outside the generated inputs are not excluded."
PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


@prop("P01")
def p01(c):
    c.rule = "random link files over small label alphabets (repeats, reversals, self links, weights) x 16 reading options, plus malformed byte streams; non-trivial: at least 3 lines and 2 labels"
    c.harness("p01")


@prop("P02")
def p02(c):
    c.rule = "random edit histories (up to 60 operations: nodes, links, soft links, removals, copies, isolated nodes, sub-networks, random additions/removals) with interleaved queries, plus build/edit/destroy leak windows; non-trivial: at least 8 operations and 3 links"
    c.harness("p02")


@prop("P03")
def p03(c):
    c.rule = "random undirected and directed graphs of 1-60 nodes (many small components, ties, isolated nodes, self links) x thresholds; non-trivial: at least 3 nodes"
    c.harness("p03")


@prop("P04")
def p04(c):
    c.rule = "random directed/undirected graphs of 2-90 nodes of 13 shapes, one path of 10050 nodes, each measure taken twice; non-trivial: at least 3 nodes and 2 links"
    c.harness("p04")
    if c.tier == "thorough":
        c.harness("p04", flavour="plain", defs=("-DHUGE_PATH",), cpu=600)


@prop("P05")
def p05(c):
    c.rule = "random graphs of 1-48 nodes incl. grids, bipartite blocks and ladders with many equal-length paths; links inserted in random order; non-trivial: at least 3 nodes and 3 directed links"
    c.harness("p05")


@prop("P06")
def p06(c):
    c.rule = "random simple undirected graphs of 1-120 nodes of 13 shapes, random node and link order; non-trivial: at least 3 nodes and 2 links"
    c.harness("p06")


@prop("P09")
def p09(c):
    c.rule = "pairs of random networks (2-60 labels, arbitrary overlap, identical, permuted, disjoint; weighted; directed with self links for the sum); non-trivial: both have at least 2 nodes and a link"
    c.harness("p09")


@prop("P07")
def p07(c):
    c.rule = "random one-mode (2-60 nodes) and two-mode networks incl. rigid ones x swap multipliers 0-12 x seeds; enumerated degree classes of 4-5 nodes with 500 randomizations each; non-trivial: at least 2 links"
    c.harness("p07")


@prop("P08")
def p08(c):
    c.rule = "random parameters of every generator incl. probabilities 0 and 1, single groups, team sizes up to the whole population; structure checked on every draw, frequencies over 60-3000 draws in 6-sigma bands; non-trivial: more than 2 nodes"
    c.harness("p08")


@prop("P15")
def p15(c):
    c.rule = "random networks of 1-60 nodes x 4-30 random moves (node moves, merges, splits by component or annealing, compress, copy) with a full structural recount after each; non-trivial: at least 3 nodes and 2 links"
    c.harness("p15")


@prop("P16")
def p16(c):
    c.rule = "random networks (2-50 nodes) and two-mode projections x up to 30 random moves from random partitions, modularity recomputed from its definition after each; non-trivial: at least 2 links"
    c.harness("p16")


@prop("P17")
def p17(c):
    c.rule = "random networks of 2-40 nodes x random annealing parameters and starts, plus rings of cliques and exhaustively solved networks of 3-7 nodes; non-trivial: at least 2 links"
    c.harness("p17")


@prop("P19")
def p19(c):
    c.rule = "random two-mode networks (1-30 nodes a side, weighted, labels shared by both sides), both sides projected, network and edge-list level; non-trivial: at least 2 nodes and 2 links"
    c.harness("p19")


@prop("P20")
def p20(c):
    c.rule = "random two-mode link files (repeats, shared labels, malformed lines) and edit histories (copy, invert, remove node or link, print); non-trivial: at least 2 first-side nodes and 2 links"
    c.harness("p20")


@prop("P21")
def p21(c):
    c.rule = "random two-mode networks x random partitions of the first side (one group, singletons, random, empty groups); non-trivial: at least 2 nodes and 2 links"
    c.harness("p21")


@prop("P10")
def p10(c):
    c.rule = "random networks of 1-50 nodes x random histories of up to 25 group operations (add, move, remove, merge, compress, copy, restore; full and fast variants), every group recounted after each; non-trivial: more than 2 nodes and 1 link"
    c.harness("p10")


@prop("P11")
def p11(c):
    c.rule = "random networks (1-45 nodes) x random partitions incl. empty groups: written, read back, mapped, sub-networks, block model, stripping; plus odd and malformed partition files; non-trivial: more than 2 nodes and 1 link, or more than 3 tokens"
    c.harness("p11")


@prop("P12")
def p12(c):
    c.rule = "random networks of 2-120 nodes x random partitions built node by node, fast, mapped, copied, from memberships and through moves; group- and array-based; non-trivial: more than 2 nodes and 1 link"
    c.harness("p12")


@prop("P13")
def p13(c):
    c.rule = "random pairs of partitions of 1-700 nodes (trivial, singletons, near-identical, random) listed in random order with random labels and empty groups; ties of the best match enumerated; non-trivial: more than 2 nodes"
    c.harness("p13")


@prop("P14")
def p14(c):
    c.rule = "random networks of 1-60 nodes incl. hubs, cliques of identical non-dyadic weights, planted modules x random partitions, group- and array-based metrics, role catalogues, tabular output, boundary (P,z) pairs; non-trivial: more than 2 nodes and 1 link"
    c.harness("p14")


@prop("P28")
def p28(c):
    c.rule = "arguments up to 620 for the combinatorial helpers, tables of 1-200 entries probed inside and outside, vectors of 1-2000 values of mixed scales, geometric draws in 6.5-sigma bands, files with lines of 0-4000 characters; non-trivial: more than one value"
    c.harness("p28")


@prop("P29")
def p29(c):
    c.rule = "random, sorted and reversed key sets of up to 1500 labels inserted, looked up, deleted in any order with full traversals in between; random stack/queue histories; non-trivial: more than 2 elements"
    c.harness("p29")


@prop("P30")
def p30(c):
    c.rule = "random simple networks of 1-60 nodes of 13 shapes (disconnected, isolated nodes, weighted); non-trivial: more than 2 nodes and 1 link"
    c.harness("p30")


@prop("P31")
def p31(c):
    c.rule = "random networks of 1-60 nodes (disconnected, isolated nodes, weighted) x 1-6 boxes a side, coinciding nodes, 0-400 integration steps with stable step sizes; non-trivial: more than 2 nodes and 1 link"
    c.harness("p31")


@prop("P22")
def p22(c):
    c.rule = "plain block model, Metropolis and Gibbs: random networks of 2-6 nodes, 20000 sweeps each from exact posterior draws (chi-square) or 40 full runs (averages), plus full runs on networks of up to 26 nodes compared with the partition they ended in; non-trivial: at least 3 nodes and a link"
    c.harness("p22", flavour="plain", defs=("-DSTAT",), cpu=60)
    c.harness("p22", flavour="san", cpu=60)


@prop("P23")
def p23(c):
    c.rule = "sparse beta prior, Gibbs: random networks of 2-6 nodes, 20000 sweeps each from exact posterior draws (chi-square) or 40 full runs (averages), plus full runs on networks of up to 26 nodes compared with the partition they ended in; non-trivial: at least 3 nodes and a link"
    c.harness("p23", flavour="plain", defs=("-DSTAT",), cpu=60)
    c.harness("p23", flavour="san", cpu=60)


@prop("P24")
def p24(c):
    c.rule = "AND, OR and degeneracy-only models, Metropolis and Gibbs: random networks of 2-6 nodes, 20000 sweeps each from exact posterior draws (chi-square) or 40 full runs (averages), plus full runs on networks of up to 26 nodes compared with the partition they ended in; non-trivial: at least 3 nodes and a link"
    c.harness("p24", flavour="plain", defs=("-DSTAT",), cpu=60)
    c.harness("p24", flavour="san", cpu=60)


@prop("P26")
def p26(c):
    c.rule = "one step at a time from random partitions (one group, singletons, random) of networks of 1-32 nodes and rating sets of up to 18x18, 13 samplers, lookup tables of 1-500 entries, ordinary and extreme random numbers; energies and every count recomputed after each step; non-trivial: at least 3 nodes and a link"
    c.harness("p26")


@prop("P25")
def p25(c):
    c.rule = "two-valued and K-valued ratings (K 1-5), Metropolis and Gibbs, and K-valued links within one set: 25000 sweeps from exact posterior draws over all pairs of partitions of 4x4 nodes (chi-square) or 40 full runs (averages), plus full runs on up to 20x20 nodes compared with the partition they ended in; queries observed, unobserved, repeated; non-trivial: at least 4 nodes and 2 ratings"
    c.harness("p25", flavour="plain", defs=("-DSTAT",), cpu=60)
    c.harness("p25", flavour="san", cpu=60)


@prop("P27")
def p27(c):
    c.rule = "networks of 2-7 nodes against enumerated posteriors (network scores, block-model error, network of reliabilities, co-membership frequencies of sampled partitions), reconstructions and partition samples of up to 14 nodes, rating sets of up to 14x14 edited, listed, written and read back; non-trivial: at least 3 nodes and a link, or 2 ratings"
    c.harness("p27", flavour="san", cpu=60)


from . import p18, p32, p33, p34, p35, p36   # noqa: E402  (registers more properties)

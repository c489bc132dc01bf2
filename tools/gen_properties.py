#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "A network read from a link file is exactly the file's network",
 "Reading a link list yields exactly one node per distinct label, in order of first appearance, and exactly the links listed, honouring the options for direction, self-links, weights and accumulation of repeated lines. Writing a network as an adjacency list and reading it back gives the same nodes, links and weights, every link of a node refers to the node it names, and reading arbitrary (even malformed) input never corrupts memory or hangs.",
 ["inputs", "configurations"], "all link files (label alphabets, orders, repetitions, reversals, self-links, weights) x the 16 combinations of reading options",
 "The tests read two well-formed files with one option combination and check only a few derived numbers; repeated, reversed, self-linking or weighted lines and the other option combinations are never compared with the file.",
 ["src/graph.c", "lib/search.c"], [("file reader", "src/graph.c FBuildNetwork, AddAdjacency, MakeLabelDict"), ("writer", "src/graph.c FPrintNetAdjacencyList, FPrintPajekFile, FPrintDegrees")])

prop("P02", "Graph edits keep the structure consistent with a simple model",
 "After any sequence of adding nodes, adding links (with or without self-links and weight accumulation), removing links, copying the network, dropping isolated nodes and cleaning dangling adjacencies, every query (node count, link count, degree, strength, presence of a link, weight, node lookup by number or label, average degree) agrees with an abstract labelled-graph model subjected to the same operations. A copy equals its original and is unaffected by later edits of it, and destroying a network releases everything it owns.",
 ["histories", "inputs"], "all operation sequences on graphs of up to a few dozen nodes",
 "Tests build a network once and never edit it; stale cached degrees, wrong removal, aliasing of copies and leaks depend on the history of operations.",
 ["src/graph.c"], [("graph editing", "src/graph.c AddAdjacency, RemoveLink, CopyNetwork, RemoveIsolatedNodes, CleanAdjacencies, AddRandomLinks, RemoveRandomLinks"), ("queries", "src/graph.c NodeDegree, NodeStrength, TotalNLinks, GetNode, GetLink, IsThereLink")])

prop("P03", "Components and giant component are the true ones",
 "An undirected network is reported connected exactly when every node can be reached from every other, and the components found (count, members, sets returned as separate networks or as a partition) are exactly the true ones: strongly connected sets for directed networks, weakly connected ones where the function says so. The extracted largest component contains exactly the nodes of a largest set (with a threshold: of a set larger than the threshold, or of a largest one) and all of the original links among them, and no others; the getgiant program prints exactly the links of a largest weak component.",
 ["inputs"], "all directed and undirected graphs incl. many small components, ties, isolated nodes; all thresholds",
 "One test extracts the giant component of one directed network and only prints it; no assertion compares members or links to a definition.",
 ["src/graph.c", "src/modules.c", "utils/main_getgiant.c"], [("components", "src/graph.c IsGraphConnected, AreConnectedList, CountStronglyConnectedSets, GetLargestWeaklyConnectedSet, GetLargestStronglyConnectedSet, GetAllConnectedSets"), ("component partition", "src/modules.c ClustersPartition")])

prop("P04", "Shortest-path statistics equal their definition",
 "Average path length, average inverse distance and the distance histograms (whole network or from one node) equal the values obtained from true shortest-path distances of the network, counting only what the measure is documented to count for unreachable pairs. Computing them leaves the network unchanged and repeatable.",
 ["inputs"], "all graphs, connected or not, directed or not, including trees, cycles, complete graphs and long paths",
 "Tests check the inverse distance of one graph to a constant.",
 ["src/graph.c"], [("breadth-first search", "src/graph.c RenewQueue, Enqueue, GetBFS"), ("distance statistics", "src/graph.c AveragePathLength, AverageInverseDistance, FPrintDistanceHistogram, FPrintDistanceHistogramFromNode")])

prop("P05", "Node and link betweenness equal the sum of shortest-path fractions",
 "For every network the betweenness of each node equals the sum over ordered source-target pairs of the fraction of shortest paths between them that pass through it, with the end-point convention of the code; the betweenness of a link equals the flow across it when every node sends one unit to each node it reaches, split equally at each step among the predecessors on shortest paths. Neither depends on the order in which nodes and links were created. The reported mean, deviation, minimum, maximum and most-between link are those of these values.",
 ["inputs"], "all graphs including disconnected ones and ones with many equal-length paths",
 "Tests check an inequality on one node of one 7-node graph; multiplicity of shortest paths, disconnected parts and link betweenness are not checked.",
 ["src/graph.c"], [("betweenness", "src/graph.c CalculateNodeBetweenness, CalculateLinkBetweenness, CalculateBiggestLinkBetweenness, NodeBetweennessStatistics")])

prop("P06", "Local structure measures equal their definition on every graph",
 "Clustering coefficients (local, averaged, triangle-based and of squares), assortativity, average neighbour degree, degree moments, common neighbours, Jaccard index and topological overlap equal the values computed directly from the adjacency relation of the network. The value does not depend on node or link order, and is well defined (finite) wherever the definition is.",
 ["inputs"], "all simple undirected graphs, including stars, trees, isolated nodes, cliques",
 "Tests compare a few constants on one network.",
 ["src/graph.c"], [("clustering", "src/graph.c ClusteringCoefficient, ClusteringCoefficient2, OneNodeClusteringCoefficient, SquareClustering, OneNodeSquareClustering"), ("correlations", "src/graph.c Assortativity, CalculateKnn"), ("node similarity", "src/graph.c CommonNeighbors, JaccardIndex, TopologicalOverlap")])

prop("P07", "Randomized networks keep every degree and stay simple",
 "Randomizing a network (one-mode or two-mode) yields a network with the same labelled nodes and exactly the same degree for each node on each side, with no self-links, no duplicated links and symmetric adjacencies; it always returns, also when no swap of links is possible (the network is then unchanged). The same seed gives the same result, different seeds change the links when an alternative exists, and every network with the same degrees that swaps can reach is eventually produced.",
 ["inputs", "histories"], "all simple networks / two-mode networks, all numbers of swaps and all random streams",
 "Tests do not inspect the randomized network; a lost or duplicated link depends on which swaps the random stream proposes.",
 ["src/graph.c", "src/bipartite.c", "utils/main_netrandomize.c"], [("link swapping", "src/graph.c RandomizeSymmetricNetwork"), ("two-mode link swapping", "src/bipartite.c RandomizeBipart")])

prop("P08", "Random graph models generate what they promise",
 "Each generator returns a network with exactly the requested number of nodes, symmetric links and no self or repeated links; link counts follow the requested probabilities (including 0 and 1) within and between groups, preferential attachment gives every new node exactly the requested number of distinct links, and modular two-mode networks respect the requested module and team sizes.",
 ["inputs", "configurations"], "all model parameters and random streams",
 "Only one generator is exercised, indirectly, by a single test without checking the result.",
 ["src/models.c", "src/bipartite.c", "utils/main_modularbipart.c"], [("models", "src/models.c EmptyGraph, ERGraph, PAGraph, UndirectedBlockGraph, GirvanNewmanGraph"), ("two-mode model", "src/bipartite.c BuildModularBipartiteNetwork")])

prop("P09", "Network sum and comparison agree with set operations",
 "The sum of two networks has the union of their nodes and of their links (a link present in both is there once, with the weight it has in the first), and contains nothing else; the originals are unchanged. Comparing two networks reports the numbers of nodes and links of each, of common ones, and the corresponding fractions, exactly as computed on labels.",
 ["inputs"], "all pairs of networks with arbitrary overlap of labels and links",
 "One pair of networks is summed and only two summary numbers are checked.",
 ["src/graph.c", "utils/main_netcompare.c", "utils/main_multinetlayout.c"], [("sum", "src/graph.c AddTwoNetworks"), ("comparison", "src/graph.c CompareTwoNetworks")])

prop("P10", "Group bookkeeping always equals a recount",
 "After any sequence of adding, removing, moving nodes between groups, merging, copying and compressing groups, the recorded size, number and weight of internal, external and total links of each group equal those recounted from the network, every node sits in exactly one group, and counts of groups, non-empty groups and nodes are right. Link counts and weights between a node and a group, or between two groups, equal a direct count (a copied partition records sizes; its link counts are valid once it is mapped onto the network).",
 ["histories", "inputs"], "all sequences of group operations over weighted and unweighted networks",
 "Tests create one partition and read a few aggregates; incremental counters go wrong only for particular histories.",
 ["src/modules.c"], [("incremental updates", "src/modules.c AddNodeToGroup, RemoveNodeFromGroup, MoveNode, MergeGroups, CopyPartition, CompressPart"), ("counts", "src/modules.c NLinksToGroup, StrengthToGroup, NG2GLinks, NG2GLinksWeight")])

prop("P11", "Partitions survive being written, read, mapped and compared",
 "A partition written to a file and read back, mapped onto a network, or rebuilt from node memberships assigns every node to the same group as before; networks built from a group contain exactly the group's nodes and the links among them, and stripping within- or between-group links removes exactly those. Group size statistics and the block-model summary (link counts, probabilities, expected values and z-scores between groups) equal a direct count.",
 ["inputs", "histories"], "all partitions (empty, singleton, single group, random) of all small networks",
 "Tests never read a partition back nor build subnetworks from groups.",
 ["src/modules.c"], [("i/o", "src/modules.c FCreatePartition, FPrintPartition"), ("mapping", "src/modules.c MapPartToNet, MapPartToNetSoft, CreatePartitionFromInGroup"), ("subnetworks", "src/modules.c BuildNetFromGroup, RemoveInterGroupLinks, BlockModel")])

prop("P12", "Modularity functions equal the definition of modularity",
 "For every network and partition the reported modularity (unweighted, weighted) equals the sum over groups of the internal link fraction minus the squared fraction of link ends, independent of how the partition was built; putting everything in one group gives zero.",
 ["inputs", "histories"], "all networks and partitions, incl. empty groups and weighted links",
 "No test checks a modularity value.",
 ["src/modules.c", "src/partition.c"], [("group-based", "src/modules.c Modularity, ModularityWeight"), ("array-based", "src/partition.c PartitionModularity")])

prop("P13", "Partition similarity measures behave as information measures",
 "The mutual information of two partitions of the same nodes is symmetric, between 0 and 1, equal to 1 for partitions that are identical up to renaming of groups, and equals the normalized mutual information computed from the joint group sizes; the fraction of correctly classified nodes is that of the nodes that belong to the reference group sharing most nodes with their own group. The answer does not depend on the order in which groups or nodes are listed.",
 ["inputs"], "all pairs of partitions of up to a few dozen nodes, matched by label or by number",
 "Tests print one value for one pair; trivial, identical and reordered partitions are not tried.",
 ["src/modules.c", "utils/main_mutualinfo.c"], [("similarity", "src/modules.c MutualInformation, CorrectlyClassified")])

prop("P14", "Node roles follow from within-module z-score and participation",
 "For every network and partition each node's participation coefficient equals one minus the sum of squared fractions of its links (or strength) going to each module, its within-module z-score equals its deviation from the module mean in units of the module's standard deviation (zero when there is no spread), and its role is the one of seven determined by the published boundaries of these two numbers (hub from z of 2.5; a participation exactly on a boundary may fall on either side).",
 ["inputs"], "all networks (weighted or not) with all partitions; all (z, P) pairs including the boundaries",
 "Tests check only one average participation value of one two-mode network.",
 ["src/modules.c", "src/partition.c"], [("group-based", "src/modules.c ParticipationCoefficient, WeightedParticipationCoefficient, WithinModuleRelativeDegree, WithinModuleRelativeStrength, CatalogRoleIdent"), ("array-based", "src/partition.c PartitionRolesMetrics, GetRole")])

prop("P15", "The partition optimised by annealing stays well-formed under every move",
 "After any sequence of moving a node, merging two modules, splitting a module, copying or compressing, every node is in exactly one module, each module's recorded size and strength equal the sums over its nodes, and the number of empty modules is right; compressing renumbers non-empty modules contiguously and changes no co-membership; splitting by components follows the links inside the module only.",
 ["histories", "inputs"], "all move sequences on all edge lists (weighted, unweighted), from singleton or random starts",
 "No test touches this code.",
 ["src/partition.c", "src/movements.c", "src/fillpartitions.c"], [("moves", "src/movements.c ChangeModule, MergeModules, SplitModuleByComponent"), ("lifecycle", "src/partition.c CreatePartition, CopyPartitionStruct, CompressPartition, AssignNodesToModules"), ("loading", "src/fillpartitions.c EdgeListToAdjaArray")])

prop("P16", "Predicted modularity change equals the actual change",
 "The modularity variation predicted for moving a node to another module, or for merging two modules, equals the difference between the modularity computed from scratch after and before performing that move, for every state reachable during optimisation.",
 ["histories", "inputs"], "all (partition, move) pairs on weighted/unweighted, self-link-free networks",
 "No test touches this code; a wrong term only biases the search and yields a plausible partition.",
 ["src/movements.c", "src/partition.c"], [("gain", "src/movements.c dEChangeModule, dEMergeModules"), ("modularity", "src/partition.c PartitionModularity")])

prop("P17", "Annealing returns a valid partition and never a worse one than it found",
 "Modularity optimisation terminates and returns a partition covering every node exactly once whose modularity is no lower than that of the starting partition, and of every partition it had accepted as best; on networks with an unambiguous community structure it finds the optimum found by exhaustive search. The random seed alone determines the result.",
 ["inputs", "configurations", "histories"], "all networks (incl. disconnected, complete, star, single node/edge), annealing parameters and seeds",
 "No test runs the optimiser.",
 ["src/sannealing.c", "src/movements.c", "src/partition.c"], [("annealing", "src/sannealing.c GeneralSA, SplitModuleSA")])

prop("P18", "The module-detection program reports a true partition and its true modularity",
 "On any valid edge list (each link on one line, no self links) the module-detection program prints every node of the input exactly once, in modules whose modularity recomputed from the input equals the value it prints; tabular output gives for each node the module, connectivity, participation and role that follow from the input and that partition. A partition it printed can be fed back as the starting point, and unusable input is rejected with an error rather than a crash or hang.",
 ["inputs", "configurations"], "edge lists (labels, separators, weights), option combinations, seeds",
 "No test runs the program.",
 ["netcarto/main_netcarto.c", "src/io.c", "src/fillpartitions.c", "src/partition.c"], [("reading", "src/io.c EdgeListFileInput, AssignNodesToModulesFromFile"), ("writing", "src/io.c ClusteringOutput, TabularOutput")])

prop("P19", "Two-mode input is projected exactly",
 "The one-mode projection of a two-mode network links exactly the pairs of nodes of the chosen side that share at least one neighbour, with a weight equal to the number of (or sum of products of weights to) shared neighbours; this holds both for the network-level projection and for the edge-list projection used by the module-detection program, and node names used on both sides stay distinct nodes.",
 ["inputs"], "all two-mode networks, weighted or not, either side, any line order",
 "One test builds a projection of one network and prints its size.",
 ["src/bipartite.c", "src/fillpartitions.c", "src/io.c"], [("network projection", "src/bipartite.c ProjectBipart, ProjectBipartWeighted, NCommonLinksBipart, SumProductsOfCommonWeightsBipart"), ("edge-list projection", "src/fillpartitions.c ProjectBipartEdgeList")])

prop("P20", "Two-mode networks are built, copied, inverted and edited faithfully",
 "A two-mode network read from a file has one node per distinct label on each side and exactly the listed links, with the two sides' adjacencies mirroring each other; copying, inverting the sides, counting links, removing a node and printing preserve exactly that relation. Copies are independent of the original.",
 ["inputs", "histories"], "all two-mode files (repeated lines, weights, same label on both sides) and operation sequences",
 "Tests check one file's node counts; mirrored adjacencies after edits are never compared.",
 ["src/bipartite.c"], [("reading and editing", "src/bipartite.c FBuildNetworkBipart, CopyBipart, InvertBipart, RemoveNodeBipart, NLinksBipart, FPrintBipart, FPrintPajekFileBipart")])

prop("P21", "Two-mode modularity and participation equal their definition",
 "The modularity of a partition of one side of a two-mode network (plain or weighted) equals the definition based on shared neighbours versus the chance of sharing them, for every network and partition, and the command-line program prints the same value for a network and partition file. Participation coefficients of two-mode nodes equal their definition.",
 ["inputs"], "all two-mode networks with all partitions of either side",
 "One participation average on one network is checked; modularity values are not.",
 ["src/bipartite.c", "utils/main_bipartitemodularity.c", "utils/main_bipartitemodularity_w.c"], [("modularity", "src/bipartite.c ModularityBipart, ModularityBipartWeighted, ModularityBipartWeightedFast"), ("participation", "src/bipartite.c ParticipationCoefficientBipart")])

prop("P22", "Link reliabilities are the exact Bayesian averages over partitions",
 "For every network, the reliability reported for each pair of nodes converges to the average over all node partitions, weighted by the documented block-model posterior, of the documented within/between-group link estimate; the matrix is symmetric, lies between 0 and 1, and equivalent nodes get equal scores up to sampling error. The Metropolis and the Gibbs samplers agree with each other and with full enumeration.",
 ["inputs", "histories"], "all small networks (where the posterior can be enumerated), all random streams",
 "The samplers have no tests; a biased proposal or a wrong count produces plausible scores.",
 ["src/missing.c"], [("Metropolis", "src/missing.c LinkScore, LinkScoreMCStep"), ("Gibbs", "src/missing.c GibbsLinkScore, GibbsLinkScoreStep"), ("posterior", "src/missing.c PartitionH")])

prop("P23", "Sparse-prior link reliabilities are the exact Bayesian averages",
 "With the density-dependent prior, the reported reliability of every pair converges to the exact average over all partitions under the documented beta-binomial posterior, is symmetric and lies strictly between 0 and 1.",
 ["inputs", "histories"], "all small networks, all random streams",
 "The sampler has no tests.",
 ["src/sparse_missing.c"], [("Gibbs with beta prior", "src/sparse_missing.c SparseGibbsLinkScore, SparsePartitionH")])

prop("P24", "Multi-layer reliabilities (AND, OR, degeneracy-only) are the exact averages",
 "For networks assumed to be the AND or the OR of several layers, and for the degeneracy-corrected single-layer model, the reported score of every pair converges to the exact average over all partitions under the documented posterior, for both the Metropolis and the Gibbs programs; scores are symmetric and lie between 0 and 1.",
 ["inputs", "histories"], "all small networks, all random streams",
 "These programs have no tests.",
 ["src/multiblock.c", "src/only_deg.c", "multiblock/main_reliability_links_mb.c"], [("AND", "src/multiblock.c LinkScoreMB, GibbsLinkScoreMB, PartitionHMB"), ("OR", "src/multiblock.c ORLinkScoreMB, ORGibbsLinkScoreMB, ORPartitionHMB"), ("degeneracy only", "src/only_deg.c LinkScoreMB_OD, GibbsLinkScoreMB_OD")])

prop("P25", "Multi-valued link and rating predictions are the exact posterior averages",
 "For two-valued and K-valued ratings between two sets of nodes (and K-valued links within one set), the predicted probability of each value for a queried pair converges to the exact average over all partitions under the documented posterior (ratings that are queried are left out of the observations of the two-set models); the K probabilities add to one, and the two samplers agree.",
 ["inputs", "histories"], "all small rating sets and query sets, all K, all random streams",
 "These programs have no tests.",
 ["src/recommend.c", "src/missing.c", "src/conflict.c"], [("2-state", "src/recommend.c MultiLinkScore2State, H2State"), ("K-state", "src/recommend.c MultiLinkScoreKState, GibbsMultiLinkScoreKState, HKState"), ("one-mode K-state", "src/missing.c LSMultiLinkScoreKState, LSHKState"), ("all pairs", "src/conflict.c AllLinkScore2State")])

prop("P26", "Samplers' incremental energy and counts never drift from a recount",
 "At every point of a sampling run the energy the sampler tracks equals the energy recomputed from the current partition, and every incremental count it keeps (links between groups, links from nodes to groups, number of groups, group sizes) equals a recount from the network; the partition keeps covering every node exactly once.",
 ["histories", "inputs"], "all step sequences of all samplers, from any starting partition",
 "No test runs a step; drift accumulates only along particular sequences of accepted and rejected moves.",
 ["src/missing.c", "src/sparse_missing.c", "src/multiblock.c", "src/only_deg.c", "src/recommend.c"], [("Metropolis steps", "src/missing.c LinkScoreMCStep, src/recommend.c MCStepKState, MCStep2State, src/multiblock.c LSMCStepMB"), ("Gibbs steps", "src/missing.c GibbsLinkScoreStep, src/recommend.c GibbsStepKState, src/sparse_missing.c SparseGibbsLinkScoreStep")])

prop("P27", "Reconstruction and rating-editing operations conserve what they must",
 "Reconstructing a network keeps its labelled nodes and its number of links, with a symmetric simple result, and leaves the observed network as it was; the network built from reliabilities links exactly the pairs whose score exceeds one half, and the block-model error is the root mean square distance between links and scores (lower for a network made of blocks than for its randomizations); the score of a target network is the posterior average of its predictive probability relative to the observed one; sampling partitions returns the requested number of partitions, each with every node exactly once, distributed as the posterior; removing the ratings of a given value removes exactly those, the unobserved set is exactly the set of pairs without a link, each once, and observation and query files are read one entry per line with their ratings.",
 ["inputs", "histories"], "all networks / rating sets and random streams",
 "No test covers these functions.",
 ["src/missing.c", "src/recommend.c"], [("reconstruction and scores", "src/missing.c NetReconstruct, NetFromSBMScores, SBMError, NetworkScore"), ("partition sampling", "src/missing.c PartitionSampling"), ("queries", "src/recommend.c BuildUnobservedSet, CountUnobserved, RemoveRatings, ReadRecommenderObservations, ReadQueries")])

prop("P28", "Numeric helpers agree with exact arithmetic and their cached versions",
 "Combinatorial and logarithmic helpers (factorial, binomials, their logs, harmonic numbers, log-gamma) equal the exact values over their domain, and the table-backed variants equal the direct ones for every argument inside and outside the table; mean, standard deviation, minimum and maximum equal their definitions; matrices and vectors have the requested shape.",
 ["inputs"], "all arguments up to several hundred, all table sizes, all data vectors",
 "Tests check one vector and a couple of arguments.",
 ["src/tools.c"], [("combinatorics", "src/tools.c fact, Choose, LogChoose, FastLogChoose, FastLogFact, FastLogGamma, InitializeHarmonicList"), ("statistics", "src/tools.c mean, stddev, max, min")])

prop("P29", "Containers behave as ordered dictionary, stack and queue",
 "The label dictionary returns exactly the node with a given label for any set of labels and any insertion and deletion order, in sorted traversal order and staying balanced; stacks return elements last-in first-out, queues first-in first-out, lengths are exact, and clearing or freeing releases everything without touching the elements.",
 ["histories"], "all operation sequences over dictionaries, stacks and queues",
 "Tests use them incidentally with a handful of insertions and no deletion.",
 ["lib/search.c", "src/datastruct.c", "src/graph.c", "src/movements.c"], [("ordered tree", "lib/search.c tsearch, tfind, tdelete, twalk"), ("stack and queue", "src/datastruct.c stack_push, queue_enqueue")])

prop("P30", "The Laplacian spectrum is the spectrum of the network's Laplacian",
 "The adjacency and Laplacian matrices are those of the network, the reported eigenvalues are the sorted eigenvalues of that Laplacian (one zero per component, sum equal to twice the number of links), and the synchronizability is the ratio of the largest to the smallest non-trivial eigenvalue.",
 ["inputs"], "all simple undirected graphs",
 "One network's eigenvalues are compared with constants.",
 ["src/matrix.c", "utils/main_lapspec.c"], [("spectrum", "src/matrix.c AdjacencyMat, LaplacianMat, LaplacianSpectrum, Synchronizability")])

prop("P31", "Layout places every node and follows the stated energy",
 "Laying out a network gives every node exactly one finite coordinate pair normalized to the unit square (one half where all nodes share the coordinate), leaves nodes, links and memberships untouched, and prints one line per node; with a single box the interaction energy and forces equal the sum of spring and repulsion terms over all pairs, and forces add to zero.",
 ["inputs", "histories"], "all networks with at least two nodes, connected or not, and random streams",
 "No test covers the layout.",
 ["src/layout.c", "utils/main_netlayout.c"], [("layout", "src/layout.c MDGraphLayout, MDGraphLayout2Dp, MDGraphLayout3D, ArrangeComponents"), ("energy", "src/layout.c PotentialEnergy, CalculateNodeForces")])

prop("P32", "Same input and seed give the same output, whatever memory contains",
 "Every program run twice on the same input with the same seed gives byte-identical results, regardless of the previous contents of heap and stack memory, of address-space layout, and of what ran before; no result depends on an uninitialised value.",
 ["inputs", "configurations"], "all programs, inputs and seeds; all initial contents of uninitialised heap and stack memory",
 "The tests run once and do not compare runs; fresh memory is usually zero so uninitialised reads go unseen.",
 ["netcarto/main_netcarto.c", "reliability/main_reliability_links.c", "multiblock/main_reliability_links_mb.c", "src/layout.c", "src/missing.c"], [("seeded generators", "all program entry points"), ("allocation helpers", "src/tools.c allocate_d_vec, allocate_d_mat")])

prop("P33", "Valid use of any program causes no memory error and no hang",
 "Running any of the command-line programs on well-formed input, for any network shape and option, finishes with exit status zero without out-of-bounds or use-after-free access, double free, undefined arithmetic or stack overflow; malformed or missing input files and wrong numbers of arguments end with a message and without a memory error.",
 ["inputs", "configurations"], "all programs x network shapes (tiny, star, clique, disconnected, weighted, two-mode) x options",
 "The test-suite runs no program and no sanitizer; out-of-bounds reads pass silently.",
 ["src/graph.c", "src/modules.c", "src/bipartite.c", "src/missing.c", "src/multiblock.c", "src/io.c"], [("program entry points", "utils/, netcarto/, reliability/, recommender/, multiblock/, only_deg/, conflict/")])

prop("P34", "The command-line utilities report what the input file implies",
 "For every input network each utility prints the values implied by the file: node, link and degree counts, components and giant component, distances, clustering, assortativity, betweenness, spectrum, comparison and similarity of networks and partitions, one line per node where per-node output is promised; the front end's file reader accepts exactly the files it documents and returns their links.",
 ["inputs", "configurations"], "all well-formed link files",
 "No utility is run by the tests.",
 ["utils/main_countlinks.c", "utils/main_netprop.c", "utils/main_nodeprop.c", "utils/main_netcompare.c", "utils/main_getgiant.c", "utils/main_lapspec.c", "utils/main_mutualinfo.c", "frontend/network.py"], [("utilities", "utils/main_netprop.c main, utils/main_nodeprop.c main, utils/main_countlinks.c main")])

prop("P35", "The legacy module-detection routines keep a valid partition",
 "The legacy annealing returns a partition of exactly the input's nodes, mapped onto the network, whose recorded group counts equal a recount, never splitting or losing a node for any algorithm option, start or limit; its program writes modules, roles and node properties consistent with that partition and with the input.",
 ["inputs", "configurations"], "all networks, start options, limits and seeds",
 "No test runs it.",
 ["src/modules.c", "netcarto/main_netcarto_legacy.c"], [("legacy annealing", "src/modules.c SACommunityIdent")])

prop("P36", "Reliability and recommendation programs list every promised pair once",
 "For every input network or rating file, the reliability, multi-layer, conflict and recommendation programs output exactly one line for each promised pair (all pairs; unobserved versus observed; or the queries in order), with a valid score, names taken from the input, and unobserved and observed files disjoint; scores agree with the exact posterior averages within sampling error.",
 ["inputs", "configurations"], "all small inputs and seeds",
 "No program is run by the tests.",
 ["reliability/main_reliability_links.c", "reliability/main_reliability_links_gibbs.c", "multiblock/main_reliability_links_mb.c", "recommender/main_multi_recommend_2.c", "conflict/main_conflict.c"], [("program entry points", "reliability/, multiblock/, only_deg/, recommender/, conflict/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Source of truth for titles/statements."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A network always equals the history of its edits",
 "After any sequence of node creations, link additions (one-directional or symmetric, with any choice of the self-loop and weight-accumulation switches), link removals, copies, and cleaning/isolated-node removal operations, the links, weights, node count, link count, node degrees and node strengths the library reports are exactly those of the network that history describes. A copy equals its original and is independent of it.",
 ["histories","inputs"], "all edit histories over small node sets, including queries interleaved with edits",
 "Tests build one fixed network by reading a file; stale cached degrees/strengths or a broken neighbour list only show after particular interleavings of queries, additions and removals.",
 ["src/graph.c","src/graph.h"],
 [("AddAdjacency/AddAdjacencySoft/RewireAdjacency*","src/graph.c"),("RemoveLink, CleanAdjacencies, RemoveIsolatedNodes, CopyNetwork","src/graph.c"),("degree/strength caches","src/graph.c NodeDegree/NodeStrength")],
 ["IsThereLink, GetLink, NodeDegree, NodeStrength, TotalNLinks, CountNodes, adjacency lists"],
 [dict(name="degree/strength cache",meaning="0 means: recompute from the adjacency list",where="src/graph.h struct node_gra")])

prop("C02", "Network files are read and written faithfully",
 "For every well-formed edge-list file and every combination of the weighted, self-loop, weight-accumulation and symmetric switches, the network built from it has exactly the nodes (in order of first appearance), links and weights the file describes under those switches. Printing a network as an adjacency list and reading it back yields the same network, and the Pajek file and the degree listing printed for a network list exactly its nodes, links and degrees.",
 ["inputs","configurations"], "all edge lists up to a small number of lines over a small label and weight alphabet, times all switch settings",
 "Tests read a handful of files with one switch setting each and never read back what was printed.",
 ["src/graph.c"], [("FBuildNetwork","src/graph.c"),("FPrintNetAdjacencyList, FPrintPajekFile, FPrintDegrees","src/graph.c")],
 ["the built network; the text printed"])

prop("C03", "Label lookup finds every node and only existing nodes",
 "Whatever the labels and the order in which they were inserted (or deleted), looking a label up in the search tree or label dictionary returns exactly the node carrying that label, and reports nothing for a label that is absent; an insertion of a present key returns the existing entry. Walking the tree visits every stored key exactly once in order, and the tree stays balanced (red-black height).",
 ["histories","inputs"], "all insertion orders and all insert/delete/find histories over small key sets",
 "Tests only insert labels in the order of three files and never delete; rebalancing cases depend on the insertion and deletion order.",
 ["lib/search.c","src/graph.c"], [("tsearch, tfind, tdelete, twalk, tdestroy","lib/search.c"),("MakeLabelDict, GetNodeDict, FreeLabelDict, NodeTreeLabelCompare","src/graph.c")],
 ["results of lookups"])

prop("C04", "Stacks are LIFO and queues are FIFO for every history",
 "For every sequence of push/pop/top/clear on a stack and enqueue/dequeue/first/clear on a queue, the elements returned, the emptiness test and the reported length are those of an ideal last-in-first-out stack and first-in-first-out queue, also after the container has been emptied or cleared and reused. The bounded integer stack used for graph traversal behaves the same way and reports emptiness with -1.",
 ["histories"], "all operation histories up to a depth",
 "No test exercises these containers at all.",
 ["src/datastruct.c","src/movements.c"], [("stack_*, queue_*","src/datastruct.c"),("AddToStack, PopFromStack","src/movements.c")], ["return values, length"])

prop("C05", "Reported distances are true shortest-path distances",
 "For every network, the average path length, the average inverse distance, the distance histogram and the distance histogram from one node are those computed from true shortest-path distances over the network's links. Networks that are disconnected or directed are included for the histograms and the inverse distance (unreachable pairs contribute nothing).",
 ["inputs"], "all graphs and digraphs up to a few nodes",
 "The tests check one average inverse distance on one network.",
 ["src/graph.c"], [("breadth-first search: Enqueue/EnqueueAdjaList/RenewQueue","src/graph.c"),("AveragePathLength, AverageInverseDistance, FPrintDistanceHistogram*","src/graph.c")], ["returned values, printed histogram"])

prop("C06", "Clustering and neighbourhood similarity equal their definitions",
 "For every undirected network, the clustering coefficients (network, transitivity-style, per node, and square clustering), the number of common neighbours, the Jaccard index and the topological overlap of node pairs equal the values given by their definitions from the adjacency of the network.",
 ["inputs"], "all undirected graphs up to five or six nodes",
 "The tests compare one value on one network for a few of these.",
 ["src/graph.c"], [("ClusteringCoefficient, ClusteringCoefficient2, OneNodeClusteringCoefficient, SquareClustering","src/graph.c"),("CommonNeighbors, JaccardIndex, TopologicalOverlap","src/graph.c")], ["returned values"])

prop("C07", "Degree statistics and degree correlations equal their definitions",
 "For every network, the average degree, the average squared degree, the degree assortativity (Pearson correlation of the degrees at the two ends of the links) and the average neighbour degree of a node equal the values given by their definitions.",
 ["inputs"], "all graphs up to five or six nodes",
 "No test covers these measures.",
 ["src/graph.c"], [("AverageDegree, AverageSquaredDegree, Assortativity, CalculateKnn","src/graph.c")], ["returned values"])

prop("C08", "Betweenness is computed from all shortest paths",
 "For every undirected network the betweenness of each node equals the sum over all pairs of nodes of the fraction of shortest paths that pass through it, as the library counts it, and the betweenness statistics (mean, population standard deviation, extremes) are those of these values. Link betweenness is the flow along shortest paths from all sources, split equally among the predecessors of each node, so it is non-negative, equal in both directions of a link, and sums over links to the total distance between connected ordered pairs; the reported most-between link is one that attains the maximum.",
 ["inputs"], "all undirected graphs up to five or six nodes",
 "The betweenness test checks one side of one value on one graph.",
 ["src/graph.c"], [("CalculateNodeBetweenness, NodeBetweennessStatistics, CalculateLinkBetweenness, CalculateBiggestLinkBetweenness","src/graph.c")], ["node dvar1, link btw"])

prop("C09", "Connected components are found exactly",
 "For every network, the connectedness test, the decomposition into connected sets, the partition into clusters and the largest weakly and strongly connected sets agree with reachability in the network: every set returned is a whole component with exactly the links the network has among its nodes, and the largest one has maximal size (early-exit thresholds included).",
 ["inputs"], "all graphs (5-6 nodes) and all digraphs (4 nodes), with every node order",
 "The giant-component test prints sizes without asserting anything, on one network.",
 ["src/graph.c","src/modules.c"], [("IsGraphConnected, AreConnectedList, GetAllConnectedSets, GetLargestWeaklyConnectedSet, GetLargestStronglyConnectedSet, CountStronglyConnectedSets","src/graph.c"),("ClustersPartition","src/modules.c")], ["returned networks and partitions"])

prop("C10", "Randomization preserves what it promises to preserve",
 "Whatever the random numbers drawn, randomizing a network (or a bipartite network) that admits a switch leaves it with the same nodes and the same degree of every node, with symmetric links, no self-links and no repeated links, and one switch can reach every network obtainable by exchanging the ends of two links. Removing or adding a number of random links (symmetric or directed) changes the link set by exactly that number of links, removing only existing links and adding only new ones between distinct nodes, and any such selection can occur.",
 ["schedules","inputs"], "all outcomes of the random draws (bounded depth) on all small graphs",
 "The tests never call these functions; a mistake shows only for particular random outcomes.",
 ["src/graph.c","src/bipartite.c"], [("RandomizeSymmetricNetwork, RemoveRandomLinks, AddRandomLinks","src/graph.c"),("RandomizeBipart","src/bipartite.c")], ["the resulting network"])

prop("C11", "Random network models always produce the structure they promise",
 "Whatever the random numbers drawn, each generator returns a network with the requested number of nodes, symmetric links, no self-links and no repeated links: the uniform random model contains all links for probability one and none for zero, preferential attachment gives every new node exactly the requested number of distinct links to earlier nodes (chosen in proportion to their degrees), block and planted-partition models only place links allowed by their block probabilities, and modular bipartite networks have the requested set sizes, module labels and team sizes within the requested range. Each link is included exactly when its random draw falls below its probability.",
 ["schedules","configurations"], "all outcomes of the random draws up to a bound for small parameters",
 "No test covers the generators except one bipartite generator call without assertions.",
 ["src/models.c","src/bipartite.c"], [("EmptyGraph, ERGraph, PAGraph, UndirectedBlockGraph, GirvanNewmanGraph","src/models.c"),("BuildModularBipartiteNetwork","src/bipartite.c"),("geometric_dist_val","src/tools.c")], ["the generated network"])

prop("C12", "Group partitions stay consistent under every sequence of moves",
 "For undirected networks without self-loops, after any sequence of node moves, additions to and removals from groups, group merges, compressions and copies, every node belongs to exactly the group it was last put in, and each group's size, node list and counts and weights of total, internal and external links equal those recomputed from the network. Derived operations (links between two groups or from a node to a group, sub-networks of a group, group-size statistics, removal of all links of a group's nodes or of the links between groups) agree with the same recomputation, and so does the printed block model of a partition: numbers, fractions, probabilities, excess over the modularity's null model, and z-scores of the links within and between groups.",
 ["histories","inputs"], "all move histories / all reachable partitions of small weighted networks",
 "One test looks at group sizes of one partition; bookkeeping errors appear only after particular move sequences.",
 ["src/modules.c"], [("AddNodeToGroup, RemoveNodeFromGroup, MoveNode (and Fast variants), MergeGroups, CompressPart, CopyPartition, MapPartToNet","src/modules.c")], ["group fields, node inGroup"],
 [dict(name="totlinks/inlinks/outlinks (and W)",meaning="link counts of a group",where="src/modules.h struct group")])

prop("C13", "Every modularity function equals the definition of modularity",
 "For every network and every partition of its nodes, the unweighted, weighted, bipartite, and weighted bipartite modularities returned by the library, and the modularity computed on the projected adjacency arrays used by the optimizer, equal the value given by the defining formula of that modularity computed directly from the links (projected arrays: co-occurrence of each pair minus its expectation s_i s_j/(sum of weights)^2). In particular they do not depend on the order of nodes or groups or on empty groups.",
 ["inputs"], "all small graphs times all partitions times small weights",
 "One test compares a modularity value on one partition of one network.",
 ["src/modules.c","src/bipartite.c","src/partition.c","src/fillpartitions.c"], [("Modularity, ModularityWeight","src/modules.c"),("ModularityBipart, ModularityBipartWeighted, ModularityBipartWeightedFast","src/bipartite.c"),("PartitionModularity","src/partition.c")], ["returned values"])

prop("C14", "Optimizer moves keep the partition valid and predict energy exactly",
 "From every partition reachable by any sequence of node moves, module merges, module splits by component and compressions, each such operation leaves every node in exactly one module with correct module sizes, strengths, member lists and empty-module count, and does to the assignment exactly what its name says. The modularity change predicted for moving a node or merging two modules equals the difference of the modularity recomputed after and before.",
 ["histories","inputs"], "explicit-state exploration of all assignments of small weighted networks under all operations",
 "No test exercises the optimizer's data structure.",
 ["src/movements.c","src/partition.c"], [("ChangeModule, MergeModules, SplitModuleByComponent, dEChangeModule, dEMergeModules","src/movements.c"),("CompressPartition, CopyPartitionStruct, PartitionModularity, AssignNodesToModules","src/partition.c")], ["partition structure, returned energies"])

prop("C15", "Module identification always returns a valid, consistent partition",
 "Whatever the random numbers drawn and whatever the annealing parameters, module identification (both implementations) terminates and returns a partition in which every node of the network is in exactly one module, with no memory errors, and with bookkeeping that agrees with the network. The partition returned by the adjacency-array optimizer has a modularity no worse than the state in which the annealing ended, at vanishing temperature the modularity never falls below the initial one, and the same seed gives the same result.",
 ["schedules","configurations"], "all bounded-deviation sequences of random draws on small networks with short cooling schedules",
 "The tests call the legacy optimizer at zero temperature on one network and assert little.",
 ["src/sannealing.c","src/modules.c"], [("GeneralSA, SplitModuleSA","src/sannealing.c"),("SACommunityIdent, SAGroupSplit, ThermalNetworkSplit","src/modules.c")], ["returned partition"])

prop("C16", "Node roles follow from within-module degree and participation",
 "For every network and partition, the participation coefficient and the within-module relative degree (unweighted, weighted and bipartite versions, and those computed by the optimizer's data structure) equal their definitions, and nodes are assigned to the seven roles exactly according to the published thresholds on these two numbers. Role catalogues contain every node exactly once, in the group of its role.",
 ["inputs"], "all small graphs times all partitions; a dense grid of (P,z) values around every threshold",
 "One test checks participation coefficients of one bipartite network.",
 ["src/modules.c","src/partition.c","src/bipartite.c"], [("ParticipationCoefficient, WithinModuleRelativeDegree, CatalogRoleIdent and weighted versions","src/modules.c"),("PartitionRolesMetrics, GetRole","src/partition.c"),("ParticipationCoefficientBipart","src/bipartite.c")], ["returned values and role groups"])

prop("C17", "Bipartite networks are read, transformed and projected faithfully",
 "For every bipartite edge list, the bipartite network read has exactly the described nodes in each set and the described links seen identically from both sides; printing, copying, inverting (swapping the sets) and removing a node change nothing else. The projection links two nodes of the first set exactly when they share a neighbour, weighted by the number of shared neighbours or by the sum of products of shared weights, and the array-based projection used by the optimizer yields the normalized co-occurrence of each pair.",
 ["inputs","histories"], "all small bipartite edge lists with weights, times switches, times removals",
 "Tests read two files and print the result.",
 ["src/bipartite.c","src/fillpartitions.c"], [("FBuildNetworkBipart, CopyBipart, InvertBipart, RemoveNodeBipart, ProjectBipart, ProjectBipartWeighted, NCommonLinksBipart","src/bipartite.c"),("ProjectBipartEdgeList, EdgeListToAdjaArray","src/fillpartitions.c")], ["resulting networks"])

prop("C18", "Saved partitions can be read back unchanged",
 "Any partition written by the library or by the module-identification program (plain listing, clustering output) and read back assigns every node to the same module-mates as before. Reading an initial partition for the optimizer puts the labels listed on each line in a module of their own, whatever the order of the lines or labels, ignoring the header lines the program itself writes.",
 ["inputs"], "all partitions of small node sets, printed and re-read through every format",
 "No test reads a partition.",
 ["src/modules.c","src/io.c"], [("FPrintPartition, FCreatePartition, MapPartToNetSoft","src/modules.c"),("ClusteringOutput, TabularOutput, AssignNodesToModulesFromFile, EdgeListFileInput","src/io.c")], ["partition after reload"])

prop("C19", "Partition comparison measures equal their definitions",
 "For every two partitions of the same nodes, the mutual information equals the normalized mutual information of the two partitions computed from the definition: it is symmetric, independent of group order and names, one for identical non-trivial partitions and zero for independent ones. The fraction of correctly classified nodes matches every group to the reference group it overlaps most (keeping only the largest overlap when several match the same one), so it lies between zero and one and is one for identical partitions.",
 ["inputs"], "all pairs of partitions of small node sets",
 "No test compares partitions.",
 ["src/modules.c"], [("MutualInformation, CorrectlyClassified","src/modules.c")], ["returned values"])

prop("C20", "Link-reliability samplers keep exact energy and counts and sample correctly",
 "For the Metropolis, Gibbs and sparse-prior link-reliability samplers, after every step from every partition and for every random outcome, the energy carried along equals the energy function recomputed from the current partition and the group-to-group link counts equal a recount. The step's transition probabilities leave invariant the distribution in which a partition of the nodes has probability proportional to exp(-energy) (with the library's labelling correction).",
 ["schedules","histories","inputs"], "all partitions of all small graphs, all random outcomes of a step",
 "No test runs these samplers; drift in energies or counts and wrong acceptance are statistical and invisible in single runs.",
 ["src/missing.c","src/sparse_missing.c"], [("PartitionH, LinkScoreMCStep, GibbsLinkScoreStep","src/missing.c"),("SparsePartitionH, SparseGibbsLinkScoreStep","src/sparse_missing.c")], ["H, G2G, groups after a step"])

prop("C21", "Multi-layer (AND/OR) and degree-only samplers keep exact energy and counts",
 "For the Metropolis and Gibbs steps of the multi-layer AND and OR models and of the degeneration-only model, after every step from every partition and for every random outcome, the energy carried along equals the energy function recomputed from the partition, that energy function equals its closed-form definition, and the group-to-group counts equal a recount. Transition probabilities leave the corresponding distribution over partitions invariant, and no memory outside the tables is read.",
 ["schedules","histories","inputs"], "all partitions of all small graphs, all random outcomes of a step",
 "No test runs these samplers.",
 ["src/multiblock.c","src/only_deg.c"], [("PartitionHMB, ORPartitionHMB, LSMCStepMB, ORLSMCStepMB, GibbsLinkScoreStepMB, ORGibbsLinkScoreStepMB","src/multiblock.c"),("PartitionHMB_OD, LSMCStepMB_OD, GibbsLinkScoreStepMB_OD","src/only_deg.c")], ["H, G2G, groups after a step"])

prop("C22", "Recommender and K-state samplers keep exact energy and counts",
 "For the two-state, K-state and Gibbs recommender samplers and the K-state link sampler, after every step from every pair of partitions and every random outcome, the energy carried along equals the energy function recomputed from the partitions, and all node-to-group and group-to-group rating counts and group sizes equal a recount from the ratings. The step's transition probabilities leave invariant the distribution defined by that energy.",
 ["schedules","histories","inputs"], "all pairs of partitions of small rating networks, all random outcomes of a step",
 "No test runs these samplers.",
 ["src/recommend.c","src/missing.c"], [("H2State, HKState, MCStep2State, MCStepKState, GibbsStepKState","src/recommend.c"),("LSHKState, LSMCStepKState","src/missing.c")], ["H, count matrices after a step"])

prop("C23", "Link reliabilities are the posterior averages over sampled partitions",
 "For every network and every sequence of partitions visited by the chain, the reliability reported for each pair of nodes equals the average over the sampled partitions of the model's predictive probability for that pair's groups, as given by the model's closed form. The result is symmetric, lies strictly between zero and one, and for K states the reliabilities of a pair sum to one. The reliability of a whole candidate network relative to the observed one is the ratio of the averaged closed-form likelihoods, and partition sampling hands back exactly the partitions visited.",
 ["schedules","inputs"], "all small networks times all enumerated sequences of visited partitions",
 "No test runs the score functions.",
 ["src/missing.c","src/multiblock.c","src/only_deg.c","src/sparse_missing.c"], [("LinkScore, GibbsLinkScore, LSMultiLinkScoreKState","src/missing.c"),("LinkScoreMB, ORLinkScoreMB, Gibbs*","src/multiblock.c"),("LinkScoreMB_OD, GibbsLinkScoreMB_OD","src/only_deg.c"),("SparseGibbsLinkScore","src/sparse_missing.c")], ["returned score matrix"])

prop("C24", "Recommendations average the predictions from exactly the observed ratings",
 "For every set of observed ratings and queries and every sequence of partitions visited by the chain, the score of each query equals the average over the sampled partitions of the predictive probability computed from the observed ratings only (queried pairs contribute no observation), and K-state scores of a query sum to one. Reading observations and queries, listing unobserved pairs and removing ratings give exactly the pairs described, and the ratings passed in are still there afterwards.",
 ["schedules","inputs"], "all small rating networks times query sets times enumerated visited partitions",
 "No test runs the recommender.",
 ["src/recommend.c","src/conflict.c"], [("MultiLinkScore2State, MultiLinkScoreKState, GibbsMultiLinkScoreKState, ReadRecommenderObservations, ReadQueries, CountUnobserved, BuildUnobservedSet, RemoveRatings","src/recommend.c"),("AllLinkScore2State","src/conflict.c")], ["returned scores"])

prop("C25", "Numeric helpers and lookup tables agree with direct computation",
 "For every argument within and beyond the table size, the tabulated logarithm, log-factorial, log-binomial, log-gamma and harmonic-number functions return the directly computed value, binomial coefficients and factorials are exact, and mean, standard deviation, minimum and maximum of every data vector equal their definitions. Counting the lines of a file gives the number of lines it has. A geometric draw is the number of failed trials before the first success.",
 ["inputs"], "all arguments in a range around every table size; all small data vectors",
 "One test computes statistics of one vector.",
 ["src/tools.c"], [("FastLog*, Initialize*, Choose, LogChoose, fact, mean, stddev, min, max, CountLinesInFile, geometric_dist_val","src/tools.c")], ["returned values"])

prop("C26", "Matrices, spectra, sums and comparisons of networks match their definitions",
 "For every network the adjacency and Laplacian matrices are the defined ones, the Laplacian spectrum is the ordered spectrum of that matrix and the synchronizability follows from it. For every two networks, their sum has exactly the nodes and links that appear in either of them, each once, links of the first keeping their weight, and the comparison reports the exact numbers and fractions of common nodes and links.",
 ["inputs"], "all small graphs and all pairs of small labelled graphs",
 "Two tests check one spectrum and two values of one sum.",
 ["src/matrix.c","src/graph.c"], [("AdjacencyMat, LaplacianMat, LaplacianSpectrum, Synchronizability","src/matrix.c"),("AddTwoNetworks, CompareTwoNetworks","src/graph.c")], ["returned values"])

prop("C27", "Module-identification programs report correct modules, modularity and roles",
 "For every network file (weighted or not, one- or two-mode) and every combination of switches, the module-identification programs write every node exactly once with the module it is in, and the modularities, participation coefficients, within-module connectivities and roles written equal their definitions for those modules and the network in the file. Given a partition file, the modules are those of that file; without one, the search's own, and the same seed gives the same output.",
 ["inputs","schedules"], "all small network files x partitions x switch combinations, and larger structured ones",
 "No test runs the programs.",
 ["netcarto/main_netcarto.c","netcarto/main_netcarto_legacy.c","src/io.c","src/fillpartitions.c"], [("main","netcarto/main_netcarto.c"),("main","netcarto/main_netcarto_legacy.c"),("TabularOutput, ClusteringOutput, EdgeListFileInput, AssignNodesToModulesFromFile","src/io.c"),("SACommunityIdent","src/modules.c")], ["files and standard output of the programs"])

prop("C28", "The network utilities report the properties of the network in the file",
 "For every network file, each utility program (link counts, giant component, Laplacian spectrum, node and network properties, network comparison, randomization, partition comparison, bipartite modularity, modular bipartite generator) prints the values that the definitions give for the network in that file, nothing else, for all names, layouts, component numbers and sizes; the randomizing and generating programs give a network with the promised nodes, degrees and team sizes, and the same one for the same seed; every program ends with success.",
 ["inputs"], "all small network files in sixteen layouts",
 "No test runs the programs.",
 ["utils"], [("main","utils/main_countlinks.c"),("main","utils/main_getgiant.c"),("main","utils/main_lapspec.c"),("main","utils/main_nodeprop.c"),("main","utils/main_netprop.c"),("main","utils/main_netcompare.c"),("main","utils/main_netrandomize.c"),("main","utils/main_mutualinfo.c"),("main","utils/main_bipartitemodularity.c"),("main","utils/main_modularbipart.c")], ["files and standard output of the programs"])

prop("C29", "Inference programs report one score per pair, from the model they are named for",
 "For every network or ratings file, each link-reliability, multi-layer, degree-only, recommender and conflict program reads exactly the network (or ratings and queries) in its files, asks the model it is named after for the scores, and reports, for exactly the pairs or queries it should and each once, under the right names and in the right file (linked pairs apart from unlinked ones where it separates them), the scores obtained; it ends on every such file, with success, gives the same output for the same seed and draws anew for another one, and explains its arguments when some are missing.",
 ["inputs"], "all small network and rating files x layouts x seeds; every incomplete command line",
 "No test runs the programs.",
 ["reliability","multiblock","only_deg","recommender","conflict"], [("main","reliability/main_reliability_links.c"),("main","reliability/main_reliability_links_k.c"),("main","reliability/main_reliability_reconstruct.c"),("main","multiblock/main_reliability_links_mb.c"),("main","only_deg/main_only_degeneration_mb.c"),("main","recommender/main_multi_recommend_k.c"),("main","conflict/main_conflict.c"),("ReadRecommenderObservations, ReadQueries","src/recommend.c")], ["files and standard output of the programs"])

prop("C30", "Model error, estimated networks and reconstruction follow from the link scores",
 "For every network and every set of link scores, the error of the block model is the root mean square difference between scores and links over all pairs, the network estimated from the scores links exactly the pairs with a score above one half and keeps all names, and the structure score compares the network's error with those of randomizations that keep every degree, in units of their standard deviation. Reconstruction starts at the observation, exchanges the best-scored missing link for the worst-scored link, keeps an exchange exactly if it raises the network score, gives up a round after five consecutive rejections, ends after a round without success, and returns the best network found, with the same nodes and number of links; on every network, also empty and complete ones. The observed network is never changed.",
 ["schedules","inputs"], "all small networks x score matrices; all sequences of better, equal and worse outcomes of the search",
 "No test runs them.",
 ["src/missing.c","reliability/main_reliability_reconstruct.c"], [("SBMError, SBMStructureScore, NetFromSBMScores, NetReconstruct","src/missing.c"),("main","reliability/main_reliability_reconstruct.c")], ["returned values and networks"])

prop("C31", "Layouts place every node, by the stated forces, within the unit square",
 "For every network, a layout gives every node finite coordinates that span exactly the unit interval in each direction and leaves the network itself unchanged; the same seed gives the same layout. The positions are those of masses joined by springs and repelling each other within neighbouring boxes, integrated with drag from random places until they rest or the steps run out; forces and energies equal their definitions for every placement and number of boxes, and every node is always in exactly the box that its position belongs to. Arranging components moves each one rigidly, never increases their total overlap and distance to the largest one, and does not touch a connected network. The layout programs print each node of the network (or of the sum of networks) in the files once, with its coordinates.",
 ["inputs","histories"], "all placements of a few nodes x networks x numbers of boxes; all small networks and files",
 "No test runs a layout.",
 ["src/layout.c","utils/main_netlayout.c","utils/main_multinetlayout.c"], [("MDGraphLayout, MDGraphLayout2Dp, MDGraphLayout3D, CalculateNodeForces, CalculateNodeForces3D, PotentialEnergy, PotentialEnergy3D, AssignBox, AssignBox3D, AddNodeToBox, RemoveNodeFromBox, ArrangeComponents, NormalizeCoordinates, NormalizeCoordinates3D","src/layout.c"),("main","utils/main_netlayout.c"),("main","utils/main_multinetlayout.c")], ["coordinates, forces and energies; standard output of the programs"])

prop("C32", "Sampling starts after the energy settled, spaced by the decorrelation time",
 "Whatever energies the chain visits, thermalization ends exactly when five blocks of twenty energies in a row have not fallen below the reference block by more than their standard errors (any block that does becomes the new reference), it never ends earlier and never runs on, and the energy is handed on unchanged. The decorrelation time is the mean, without outliers beyond two standard deviations, of ten estimates (estimates whose fit fails are repeated), each twice the decay time fitted to the mutual information between the partitions met and the one the estimate started from; it is at least one step, and in a bipartite model it is that of the slower side. A decay time found by the fit is one whose curve goes through both points. Every sampler thermalizes before its first sample and makes that many moves per node between consecutive samples; a spacing that the caller gives is used instead of measuring.",
 ["schedules"], "all energy, partition and fit-result schedules within bounds",
 "Tests run a few short chains and cannot tell whether they were sampled too early or too densely.",
 ["src/missing.c","src/multiblock.c","src/only_deg.c","src/sparse_missing.c","src/recommend.c"], [("CalculateDecay, GetDecorrelationStep, ThermalizeLinkScoreMC, GibbsThermalizeLinkScore, LSGetDecorrelationStepKState, LSThermalizeMCKState, LinkScore","src/missing.c"),("GetDecorrelationStepMB, ThermalizeLSMCMB, ORThermalizeLSMCMB","src/multiblock.c"),("GetDecorrelationStepMB_OD, ThermalizeLSMCMB_OD","src/only_deg.c"),("SparseGibbsThermalizeLinkScore","src/sparse_missing.c"),("GetDecorrelationStep2State, ThermalizeMC2State, GetDecorrelationStepKState, ThermalizeMCKState","src/recommend.c")], ["steps taken before the first sample and between samples", "returned decorrelation step"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")

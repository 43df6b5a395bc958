"""Per-property specification used by run.py."""
CHECKS = {}
def chk(pid, **kw): CHECKS[pid] = kw

chk("C01", harness=["h_c01.c","h_c01h.c"],
    bounds="explicit-state search over edit histories on up to 3 nodes; full alphabet to depth 3 (4 thorough), reduced alphabet to depth 4 (5 thorough), from 0..3 initial nodes; rings and stars of 1000, 30000 and 500000 nodes (counts, degrees, copies, removal)",
    counts="states: distinct network states (adjacency order, weights, caches) reached; transitions: edit operations applied on real networks; traces: edit histories whose final network was compared with the matrix model",
    assumptions=["RemoveLink is only called for existing links (documented)", "RemoveIsolatedNodes only when no removed node is pointed to"])
chk("C02", harness=["h_c02.c"],
    bounds="all edge lists of 1-3 lines over 4 labels (3 weighted), 4 lines over 3 labels (thorough: 4 lines over 4 labels, 5 lines over 3), 3 weights, 16 switch settings; separators/line ends; labels of every length 1..99; rings up to 260 nodes",
    counts="states: distinct files; transitions: files read by the real reader and compared; traces: complete read/print/re-read executions",
    assumptions=["labels contain no white space and are shorter than 100 characters"])
chk("C03", harness=["h_c03.c"],
    bounds="complete reachable state space of the search tree over up to 12 keys (13 thorough); all insertion orders of 8 (9) keys; all insertion x deletion orders of up to 6 keys; dictionaries for all orders of 6 (7) labels from 3 label families; strided orders up to 1200 labels",
    counts="states: distinct trees / key orders; transitions: tree operations or lookups compared with a set model; traces: operation histories replayed on the real tree",
    assumptions=["key order is a total order; labels shorter than 100 characters"])
chk("C04", harness=["h_c04.c"],
    bounds="all histories over {push new, push repeated, pop, clear} to depth 9 (11 thorough); integer stack capacities 1..6, depth 7 (8)",
    counts="states: histories; transitions: operations compared with the ideal container; traces: complete histories including draining")

chk("C05", harness=["h_c05.c"],
    bounds="all labelled undirected graphs up to 6 nodes (7 thorough) and digraphs up to 4 nodes (5 thorough), both link insertion orders and with self-loops and weights for the smaller ones, all labelled trees up to 7 (8) nodes, nine structured families up to 300 nodes, connected, disconnected and one-way",
    counts="states: networks; transitions: calls of a distance function on the real network compared with an all-pairs reference; traces: networks fully compared",
    assumptions=["at least two nodes"])

_G = "all labelled undirected graphs up to 6 nodes (7 thorough), both link insertion orders up to 5 nodes, all labelled trees up to 7 (8) nodes, all circulant graphs up to 11 nodes plain, with an isolated node and with a chord, structured families (cycle, path, star, two cliques joined by a path, wheel, complete bipartite, barbell and others) on 9 to 257 nodes"
_D = "; all digraphs up to 4 nodes (5 thorough)"
_CN = "states: networks; transitions: function calls on the real network compared with a matrix reference; traces: networks fully compared"
chk("C06", harness=["h_c06.c","h_c06l.c","h_c06h.c"], bounds=_G+"; hub families (star, clique in a star, shared leaves, wheel, stars of stars) of up to 47000 links per node", counts=_CN, assumptions=["undirected networks without self-loops; averages over nodes only when a node has a defined value"])
chk("C07", harness=["h_c07.c","h_c07l.c","h_c07h.c"], bounds=_G+_D+"; all graphs of up to 4 and digraphs of up to 3 nodes with all non-empty sets of self-links; nine hub families of up to 66000 links per node", counts=_CN, assumptions=["assortativity: out-degrees over both orientations of every link, networks with at least two different link-end degrees; neighbour degree: nodes with a neighbour"])
chk("C08", harness=["h_c08.c","h_c08l.c"], bounds=_G+_D+" (node betweenness); grids, layered networks and chains of diamonds with up to 2^80 shortest paths between two nodes", counts=_CN, assumptions=["at least two nodes; link betweenness for undirected networks"])

chk("C09", harness=["h_c09.c","h_c09l.c"], bounds=_G+_D+"; every early-exit threshold on networks up to 4 nodes", counts=_CN.replace("matrix reference","transitive closure"), assumptions=["connectedness test, clusters and list of components: undirected networks; fewer than 10000 nodes"])

chk("C10", harness=["h_c10.c","h_c10l.c"],
    bounds="every choice of link pair and orientation for one switch on all networks of 4-5 nodes (6 thorough) and bipartite networks up to 3x4, for two consecutive switches on networks with up to 5 (7) links; every selection of up to 3 links to remove or add on all networks up to 4 nodes, 2 on 5 nodes, directed up to 4 nodes; rejected selections continue with a fixed stream; families of up to 100 nodes with fixed streams",
    counts="states: networks; transitions: calls of the real function; traces: distinct sequences of random draws executed and checked",
    assumptions=["the network admits at least one switch (otherwise the documented algorithm cannot finish); not more links are removed/added than exist/fit"])

chk("C11", harness=["h_c11.c"],
    bounds="pairwise models: up to 9 nodes (12 thorough) plus 30, every threshold pattern {below, at, above} for up to 6 pairs and each pair singly beyond; block models up to 3 (4) blocks; preferential attachment up to 8 nodes, m up to 4, all 8-valued draws to depth 4 (5) plus one later deviation, all equiprobable draw cells for m=1 up to 6 (7) nodes; modular bipartite networks for 60 parameter settings, all 6-valued draws to depth 4 (5) plus one later deviation",
    counts="states: parameter settings; transitions: generator runs; traces: distinct draw sequences executed and checked",
    assumptions=["team sizes do not exceed the number of nodes of the first set"])

chk("C12", harness=["h_c12.c","h_c12l.c","h_c12h.c"],
    bounds="complete reachable space of partitions (ordered member lists, empty and removed groups, nodes outside groups) of all 27 three-node networks with weights {none,1,2}; 16 weighted four-node networks to depth 3 (thorough: all 64, complete, up to one node outside); every operation from every state; all partitions built directly on all graphs up to 5 nodes; families of up to 129 nodes under long move sequences; the printed block model of all graphs up to 5 nodes x all partitions and of dense networks of up to 54000 links; 400000 groups or members",
    counts="states: distinct partitions reached; transitions: group operations and queries executed on the real library; traces: histories replayed and fully compared with the recomputed partition",
    assumptions=["undirected networks without self-loops", "a copied partition is mapped to the network before use (documented)"])

chk("C13", harness=["h_c13.c","h_c13l.c","h_c13h.c"],
    bounds="all graphs of 2-5 nodes (6 thorough), unweighted and with a weight pattern, times all partitions of their nodes, times 3 arrangements of groups (order, labels, empty groups) and 4 edge orders; all bipartite networks up to 4x3, 3x4 and 5x2 (thorough also 5x3, 4x4), unweighted and weighted, times all partitions of the first set; 20 network families and 12 bipartite families of up to 129 nodes; hubs of up to 66000 links",
    counts="states: networks; transitions: modularity evaluations on the real code compared with the double-sum definition; traces: network x partition cases",
    assumptions=["at least one link; bipartite: at least one shared neighbour where the definition divides by it"])

chk("C14", harness=["h_c14.c","h_c14l.c"],
    bounds="complete reachable space of arrangements (module member lists in order) of all weighted networks on 2-3 nodes and all 63 on 4 nodes with 2, 3 and n modules under move, merge, split, compress, copy; 8 five-node networks with 3 and 5 modules up to list order (thorough: 20, some with list order); component splits of every subset module of all graphs with 5 nodes (6 nodes: whole network or all but one) with all random draws; all random initial assignments up to 5 nodes; families of up to 100 nodes under long sequences of moves, merges and splits",
    counts="states: arrangements / networks; transitions: operations executed on the real structure; traces: histories replayed and compared with recomputation",
    assumptions=["a node is moved to a different module; a module is split into an empty one (as the optimizer does)"])

chk("C15", harness=["h_c15.c"], ldflags=["-Wl,--wrap=ChangeModule,--wrap=MergeModules,--wrap=SplitModuleByComponent,--wrap=CopyPartitionStruct,--wrap=FreePartition"],
    bounds="array optimizer: 12 networks of 1-6 nodes and 2 bipartite projections x 8 annealing settings (hot, cold, frozen, no iterations, program defaults) x up to 4 default streams (thorough 20); legacy optimizer: 12 networks x 11 settings x 3 (10) streams; each with all 6-valued outcomes of the first 2 draws and every single deviation later, pairs of deviations in the first 24 (60) draws for some; group splits of all graphs with 3 and 4 nodes; families of 9, 17 and 30 (thorough 41) nodes, both implementations and projections, with fixed streams",
    counts="states: network x setting x default stream; transitions: moves inspected in the running optimizer; traces: distinct draw sequences executed and checked",
    assumptions=["at least one link (or a single node); cooling factor below 1"])

chk("C16", harness=["h_c16.c","h_c16l.c","h_c16h.c"],
    bounds="all graphs of 2-5 nodes (6 thorough) with 4 weightings x all partitions x 2 group arrangements; hubs with 6-10 leaves and up to 5 further modules (all link distributions up to 26 nodes, 3 internal structures, 3 weightings), reaching all seven roles; GetRole on a grid of 42 x 20 values at and next to every threshold; all bipartite networks up to 4x3, 3x4, 5x2 (thorough 5x3, 4x4) x all partitions, given as node lists and as arrays, also weighted by the number of shared neighbours; families of up to 257 nodes, hubs of up to 200 leaves x 40 further modules, hubs of up to 47000 links",
    counts="states: networks / grid points; transitions: function calls compared with the definition; traces: network x partition cases",
    assumptions=["bipartite: nodes that share a neighbour with another node; group labels below the number of nodes", "weighted: positive weights"])

chk("C17", harness=["h_c17.c","h_c17l.c"],
    bounds="all bipartite edge lists of 1-3 lines over 3+3 labels and 3 weights and 4 lines over 2+2 (thorough 3+3) labels x 4 switch settings, printed and re-read; all histories of copy/invert/remove to depth 2-4 (one more in thorough) on all networks up to 3x3, with and without weights and a label shared by both sets; both projections, pair counts and the array projection of all networks up to 4x3, 3x4, 5x2, 2x5 (thorough 5x3, 4x4) in 4 edge orders; node tables for all partitions of networks up to 9 links; 12 bipartite families of up to 100 nodes, copied attributes",
    counts="states: files / networks; transitions: operations of the real library compared with the reference; traces: complete histories or comparisons",
    assumptions=["labels shorter than 100 characters; edge lists for the array projection without duplicates"])

chk("C18", harness=["h_c18.c"],
    bounds="all partitions of 1-5 nodes (6 thorough) x all orders in which nodes and groups are listed x 5 families of labels (prefixes, numbers, comment-like, 99 characters), written and read through every format, with and without header lines, trailing separators, blank lines and final newline; every number of modules of up to 30 (60) nodes",
    counts="states: partitions; transitions: write or read operations of the real code; traces: partition x listing order round trips",
    assumptions=["labels without white space, shorter than 100 characters, and not equal to the group separator ///"])

chk("C19", harness=["h_c19.c","h_c19h.c"],
    bounds="all pairs of partitions of up to 6 nodes (7 thorough) in up to 4 arrangements (group order, names, empty groups), compared by node and by label; all pairs of periodic and block partitions of 8-16 (30) nodes; four pairs of partitions of 3000 and 49000 nodes",
    counts="states: partitions; transitions: comparisons computed by the real code; traces: pairs of partitions checked",
    assumptions=["mutual information of two one-group partitions is undefined and not constrained; group labels below the number of nodes (documented)"])

_SB = "all graphs of 2 and 3 nodes x all labelled partitions x 1 and 3 steps with all draws of the first proposals from {each cell, 0, just below 1} and every single later deviation; all graphs of 4 nodes x all partitions x 2 labellings; networks of 5 nodes (every 17th; thorough: all) x all partitions; five structured networks of 7-9 nodes; energy tables larger and smaller than needed; two values of the linear group term. Exact transition probabilities (every draw cut at all its breakpoints, 1e-11): all networks of 2-3 nodes x all partitions x 3 labellings, Gibbs samplers also 16 networks of 4 nodes (thorough: all 64, some of 5 nodes, and Metropolis on 16 networks of 4 nodes)"
_SC = "states: start states; transitions: executions of the real step; traces: distinct draw sequences checked, plus control states of the step in the exact-probability runs"
_SA = ["networks without self-loops", "draws are independent and uniform"]
chk("C20", harness=["h_c20.c"], bounds=_SB, counts=_SC, assumptions=_SA)
chk("C21", harness=["h_c21.c"], bounds=_SB+"; degeneracy of up to 69 groups exact, up to 400 within 2%", counts=_SC, assumptions=_SA)

chk("C22", harness=["h_c22.c"],
    bounds="steps: all rating tables of 1x2, 2x1, 2x2 and (strided for 3 rating values) 3x1, 1x3 and all K-state link networks of 2-3 nodes x all labelled partitions, all draw sequences to depth 3 plus one later deviation, and three consecutive steps; strided tables of 3x2, 2x3 and 4-node networks x all partitions; 5x4, 3x6 tables and 6-node networks beyond the lookup tables. Exact transition probabilities from every partition for a strided share of the tables of 2x2, 3x1, 1x3, 3x2, 2x3 and all link networks of 2 nodes, half of those of 3 nodes (thorough: all or 2-16 times as many)", counts=_SC, assumptions=["at least one set with two or more nodes (with one node in each set the Metropolis step cannot propose a move)", "draws are independent and uniform"])

chk("C25", harness=["h_c25.c"],
    bounds="tables of every size 0..60, every argument up to 2*size+20, both lookup orders, all sequences of three binomial lookups on tables of 0-4 (6) rows; binomials up to 600, factorials up to 20; all vectors of length 1-6 over 7 values (thorough up to 8 over 5) at 2 scales, constant vectors up to 400; all files of up to 3 (4) lines over 10 line lengths around the read buffer, with and without final newline; all geometric draws to depth 7",
    counts="states: arguments, vectors or files; transitions: function calls compared; traces: complete tables, vectors or files",
    assumptions=["standard deviation: error up to 1e-7 of the largest value where the variance vanishes (two-pass and one-pass formulas both acceptable)", "binomials exact below 2^48 (doubles)"])
chk("C26", harness=["h_c26.c","h_c26l.c"],
    bounds=_G+_D+"; networks with self-loops up to 3 nodes (adjacency); all pairs of labelled undirected networks of up to 4 nodes with the second's labels any ordered selection of 4-5 labels in 3 label families; pairs of digraphs with self-loops of up to 3 nodes",
    counts="states: networks or pairs; transitions: function calls compared; traces: networks or pairs fully compared",
    assumptions=["spectra: undirected networks without self-loops; synchronizability: at least one link; comparison: undirected networks without self-loops"])

_WEAK23 = {"missing.c": ["LinkScoreMCStep","GetDecorrelationStep","ThermalizeLinkScoreMC","LSMCStepKState","LSGetDecorrelationStepKState","LSThermalizeMCKState","GibbsLinkScoreStep","GibbsThermalizeLinkScore","LinkScore","NetworkScore"],
  "multiblock.c": ["LSMCStepMB","GetDecorrelationStepMB","ThermalizeLSMCMB","ORLSMCStepMB","ORGetDecorrelationStepMB","ORThermalizeLSMCMB","GibbsLinkScoreStepMB","GibbsThermalizeLSMCMB","ORGibbsLinkScoreStepMB","ORGibbsThermalizeLSMCMB"],
  "only_deg.c": ["LSMCStepMB_OD","GetDecorrelationStepMB_OD","ThermalizeLSMCMB_OD","GibbsLinkScoreStepMB_OD","GibbsThermalizeLSMCMB_OD"],
  "sparse_missing.c": ["SparseGibbsLinkScoreStep","SparseGibbsThermalizeLinkScore"],
  "tools.c": ["InitializeFastLogChoose","FreeFastLogChoose","FastLogChoose","InitializeFastLogFact","FreeFastLogFact","FastLogFact","InitializeFastLogGamma","FreeFastLogGamma","FastLogGamma","InitializeFastLog","FreeFastLog","FastLog"]}
chk("C23", harness=["h_c23.c"], weaken=_WEAK23,
    bounds="all labelled partitions as single samples for 2..4 nodes, all pairs of partitions for <=3 nodes (every 7th at 4), sequences of 3-5 samples over three partitions, chains that restart; real step: all initial assignments with up to one draw away from the default; 10-node networks with nothing replaced; NetworkScore for all pairs of networks of <=4 nodes", counts="states: networks; transitions: complete runs of a score function; traces: sequences of visited partitions (or of draws of the real step) whose scores were compared",
    assumptions=["sparse model: neither empty nor complete network (its prior is undefined)"])

chk("C24", harness=["h_c24.c"], weaken={"recommend.c": ["MCStep2State","MCStepKState","GibbsStepKState","GetDecorrelationStep2State","GetDecorrelationStepKState","ThermalizeMC2State","ThermalizeMCKState","GibbsThermalizeKState"],
  "tools.c": ["InitializeFastLogChoose","FreeFastLogChoose","FastLogChoose","InitializeFastLogFact","FreeFastLogFact","FastLogFact","InitializeFastLog","FreeFastLog","FastLog"]},
    bounds="all rating tables of 1x2, 2x1, 2x2 with up to 2 (3: every 4th) values, strided 2x3, 3x2, 3x3, x all query sets (and ordered/repeated pairs) x all labelled pairs of partitions as single samples; sequences of 2-5 samples over three pairs of partitions with restarts; 7x8 and 8x3 tables; real step: free draws to depth 3 plus one later deviation; nothing replaced on 6x7 tables; pair lists and rating removal for all tables up to 3x3 (strided for 3 values); all observation files of 1-3 lines x all query files of 1-2 lines over 2 label families, query files of up to 5 lines with unknown names in every position",
    counts="states: rating tables or files; transitions: complete calls; traces: sequences of visited partitions (or of draws) whose scores were compared",
    assumptions=["two-state model: ratings 0 and 1; K-state: ratings 0..K-1"])

chk("C27", harness=["h_c27.c"], mains={"netcarto/main_netcarto.c": "netcarto_main", "netcarto/main_netcarto_legacy.c": "legacy_main"},
    bounds="netcarto with a given partition: all networks of 2-5 nodes (6 thorough) x all partitions x weighted or not, and all bipartite networks of 2x2, 3x2, 2x3, 3x3 (thorough 4x3, 3x4) x both columns x all partitions, with file layouts, label families, output to file and standard output, input from file and standard input and the roles switch cycled; six structured families of 8-44 nodes; its own search on all networks of 2-4 nodes (5, strided, thorough) and bipartite ones (strided) with 3 seeds; reader: all edge lists of 0-3 lines over 2-4 labels, 4 lines over 3 labels, and every line cut short; netcarto-legacy on all networks of 2-4 nodes (5, strided, thorough) and four families of 8-14 nodes in 16 variants, with randomizations where the network admits one",
    counts="states: files; transitions: runs of a program or reader; traces: outputs completely parsed and compared with the definitions",
    assumptions=["edge lists for the programs contain no duplicates or self-loops (documented)", "labels shorter than 100 characters without white space"])

chk("C28", harness=["h_c28.c"], mains={"utils/main_%s.c" % f: (g or f) + "_main" for f, g in [("countlinks",0),("getgiant",0),("lapspec",0),("nodeprop",0),("netprop",0),("netcompare",0),("netrandomize",0),("mutualinfo",0),("bipartitemodularity","bipmod"),("bipartitemodularity_w","bipmodw"),("modularbipart",0)]},
    bounds="files of all graphs of 2-5 nodes (6 thorough) in up to 16 forms (orientation, repeated lines, self-links, isolated nodes, order, separators, 4 label families), 15 structured families of 9-40 nodes in 3 forms, up to 1300 isolated nodes; pairs of networks of 2-3 and 2-4 nodes with 0-2 labels shifted; all pairs of partitions of up to 4 nodes; all bipartite files up to 3x3 (4x3 thorough) x all partitions x inverted or not x weighted or not; all parameters of modularbipart up to 3 modules of 4 nodes and 6 teams, 3 seeds; randomization of all networks of 4-5 nodes and families up to 20 nodes, 3 seeds",
    counts="states: input files or parameter settings; transitions: program runs; traces: outputs compared with the definitions",
    assumptions=["networks with at least two nodes and one link", "randomization: networks with at least one possible switch (the programs do not stop otherwise)", "the number of draws is finite: fixed seeds for the two random programs; their random choices are explored by C10 and C11"])

_W29 = ["LinkScore","GibbsLinkScore","SparseGibbsLinkScore","LinkScoreMB","ORLinkScoreMB","GibbsLinkScoreMB","ORGibbsLinkScoreMB","LinkScoreMB_OD","GibbsLinkScoreMB_OD","LSMultiLinkScoreKState","NetReconstruct","MultiLinkScore2State","MultiLinkScoreKState","GibbsMultiLinkScoreKState","AllLinkScore2State"]
chk("C29", harness=["h_c29.c"], weaken={"tools.c": _WEAK23["tools.c"]}, ldflags=["-Wl," + ",".join("--wrap=" + f for f in _W29)],
    mains={"reliability/main_reliability_links.c": "links_main", "reliability/main_reliability_links_gibbs.c": "links_gibbs_main", "reliability/main_reliability_links_gibbs_sparse.c": "links_sparse_main", "reliability/main_reliability_links_k.c": "links_k_main", "reliability/main_reliability_reconstruct.c": "reconstruct_main", "multiblock/main_reliability_links_mb.c": "mb_main", "multiblock/main_reliability_links_mb_OR.c": "mb_or_main", "multiblock/main_reliability_links_mb_gibbs.c": "mb_gibbs_main", "multiblock/main_reliability_links_mb_gibbs_OR.c": "mb_gibbs_or_main", "only_deg/main_only_degeneration_mb.c": "od_main", "only_deg/main_only_degeneration_mb_gibbs.c": "od_gibbs_main", "recommender/main_multi_recommend_2.c": "rec2_main", "recommender/main_multi_recommend_k.c": "reck_main", "recommender/main_multi_recommend_k_gibbs.c": "reck_gibbs_main", "conflict/main_conflict.c": "conflict_main"},
    bounds="nine link programs on the files of all graphs of 2-4 nodes in up to 16 forms x 3 seeds; K-state program on all (4 nodes: strided) networks with 2 and 3 states of 2-4 nodes; reconstruction program on all graphs of 2-4 nodes; four rating programs on all rating tables up to 2x2 and strided 3x2 and 2x3 with 2 or 3 values and up to 4 queries, including repeated ones and unrated nodes; every incomplete command line",
    counts="states: input files; transitions: program runs; traces: outputs compared with what the library function returned for the network in the file",
    assumptions=["at least one link or rating; the sparse model needs a network that is not complete", "the library functions run with 12 samples instead of the program's number (their values are the subject of C20-C24)"])

chk("C30", harness=["h_c30.c"], weaken={"missing.c": ["LinkScore","NetworkScore","SBMError"], "tools.c": ["InitializeFastLogChoose","FreeFastLogChoose","FastLogChoose","InitializeFastLogFact","FreeFastLogFact","FastLogFact"]},
    bounds="error and estimated network: all networks of 2-5 nodes (5: strided) x all score matrices over 7 (3 nodes), 3 (4 nodes; thorough 5) or 2 values, both link orders, 9 structured score patterns on families of 6-12 nodes; structure score: all networks of 4-6 nodes (5, 6 strided) that admit a switch, 2-4 randomizations; search: all networks of 2-4 nodes, strided 5, x all sequences of outcomes with up to 2 (4 nodes thorough: 3) improvements x all score orders (3 nodes) or 4-5 of them per round; complete runs with nothing replaced on 2-5 nodes",
    counts="states: networks; transitions: calls and proposals; traces: complete executions compared",
    assumptions=["undirected networks without self-loops", "randomization: networks with at least one possible switch"])

chk("C31", harness=["h_c31.c"], weaken={"tools.c": ["allocate_d_vec"]}, mains={"utils/main_netlayout.c": "netlayout_main", "utils/main_multinetlayout.c": "multinetlayout_main"},
    bounds="boxes: 25x25(x25) lattice of positions x 5 extents x 1-6 (9 thorough) boxes per side, all sequences of 6 (8) additions and removals; forces and energies: all placements of 2-4 nodes on lattices (7x7, 4x4, 3x3; 4x4x4, 2x2x2) x networks (strided from 3 nodes) x 1-5 boxes per side, a node in every box up to 6x6 and 4x4x4; dynamics: networks of 2-5 nodes (5 strided), 7 lengths up to 60 steps, 0-4 boxes, 2 drags and steps, until rest on families of 2-6 nodes, families of 20-120 nodes; components: networks of 1-5 nodes x 5 position patterns, families of 6-18 nodes; normalization: all value vectors of 2-4 nodes; programs: files of all graphs of 2-4 nodes (5 strided) in up to 16 forms x 3 methods; sums of 2 and 3 networks",
    counts="states: networks, placements or position lattices; transitions: calls; traces: results compared with the reference",
    assumptions=["undirected networks, at least two nodes for the programs", "no two nodes at the same place (the force between them has no direction)", "networks too small to be pushed apart for more than 3000 steps are not followed further"])

# deciding method / assurance notes / properties not claimed, used by tools/gen_manifest.py
chk("C32", harness=["h_c32.c"], weaken=dict({f: [s for s in l if s not in ("LinkScore","NetworkScore")] for f, l in _WEAK23.items()}, **{"missing.c": [s for s in _WEAK23["missing.c"] if s not in ("LinkScore","NetworkScore")] + ["CalculateDecay"], "recommend.c": CHECKS["C24"]["weaken"]["recommend.c"]}),
    bounds="thermalization of 13 samplers: all sequences of 6 (8 thorough) blocks over {far below, below within errors, equal, above, just below, just not below the limit}; decorrelation time of 7 samplers: 2-100 nodes, fits at three levels with up to two deviating among the first 12 (6 values incl. failed fits), partitions moving in 360 schedules; the fit on 10 x 14 decay curves and 441 pairs of overlaps at up to 100 pairs of times; 16 score functions: 8 networks x spacings 1-9 x 1-5 samples, spacing measured or given",
    counts="states: schedules or curves; transitions: complete calls of the real function; traces: schedules whose end, arguments and result were compared with the reference",
    assumptions=["blocks of twenty energies, five in a row, ten estimates, two standard deviations (the documented procedure)", "overlap times may be counted from the first or before the first step"])

TECH, NOTE, NA = {}, {}, {}
TECH["C01"] = "explicit-state model checking of edit histories on the real network structure"
TECH["C03"] = "explicit-state search of the complete reachable tree state space plus all insertion/deletion orders"
TECH["C04"] = "exhaustive enumeration of all operation histories to a depth on the real containers"
_E = "exhaustive enumeration of all small networks executed on the real code against a reference model"
for _i in ("C05","C06","C07","C08","C09"): TECH[_i] = _E
TECH["C02"] = "exhaustive enumeration of all small edge-list files and switch settings, read and re-read by the real code"
TECH["C10"] = "stateless exploration of all random-draw schedules of the real randomization code"
TECH["C11"] = "stateless exploration of random-draw schedules of the real generators (bounded deviations)"
TECH["C12"] = "explicit-state search over partitions under group operations, every step replayed on the real library"
TECH["C13"] = "exhaustive enumeration of networks and partitions executed on the real code against the definition"
TECH["C14"] = "explicit-state search of the complete space of module arrangements under the optimizer's operations, on the real code"
TECH["C16"] = "exhaustive enumeration of networks, partitions and threshold values executed on the real code against the definition"
TECH["C17"] = "exhaustive enumeration of files, edit histories and small bipartite networks executed on the real code against a reference"
TECH["C15"] = "stateless exploration of random-draw schedules of the real annealing (bounded deviations), state inspected after every move"
TECH["C18"] = "exhaustive enumeration of partitions, listing orders and file layouts, round-tripped through the real code"
TECH["C19"] = "exhaustive enumeration of pairs of partitions executed on the real code against the definition"
TECH["C20"]="stateless model checking of the real sampler steps: exhaustive exploration of draw sequences with energy/count recomputation, and exact transition matrices by exhaustive enumeration of draw cells checked for invariance"
TECH["C21"]=TECH["C20"]
TECH["C22"]=TECH["C20"]
TECH["C25"]="explicit enumeration of all arguments, vectors and files in the bounds on the real functions, against long-double direct computation"
TECH["C26"]="exhaustive enumeration of all networks and pairs of networks in the bounds on the real functions, against matrix references and Jacobi eigenvalues"
TECH["C23"]="stateless exploration of the real score functions over all enumerated sequences of sampled partitions (the chain's step replaced by a scripted one) and over all draw sequences in the bounds with the real step recorded"
TECH["C24"]=TECH["C23"]
TECH["C27"]="exhaustive enumeration of network files, partitions and switches; the real programs are executed on each and every field they write is compared with the definition"
TECH["C28"]="exhaustive enumeration of all small network files in sixteen layouts; the real programs are executed on each and every value they print is compared with the definition"
TECH["C29"]="exhaustive enumeration of all small network and rating files; the real programs are executed on each and everything they write is compared with the network in the file and what the model's score function returned"
TECH["C30"] = "stateless exploration of all outcome sequences of the real search with scripted scores, and exhaustive enumeration of networks x score matrices"
TECH["C31"] = "exhaustive enumeration of placements, networks and parameters on the real code against a reference simulation; all box edit sequences"
TECH["C32"] = "stateless exploration of all energy, partition and fit-result schedules (within bounds) of the real thermalization and decorrelation loops with scripted steps"

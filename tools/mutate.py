#!/usr/bin/env python3
"""mutate.py PROPERTY [N] [SEED] [FUNC...]   mutation testing of one property's check.
Generates small operator/constant/statement mutants of the functions the property is about in
scratch copies of /repo's sources (under /tmp), runs the check on each (failing fast) and lists survivors."""
import sys, os, re, random, shutil, subprocess, time, hashlib
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUT_REPO", "/repo")
G, M, T = "src/graph.c", "src/modules.c", "src/tools.c"
MAP = {
 "C01": {G: "CreateHeaderGraph CreateNodeGraph AddAdjacency AddAdjacencySoft RewireAdjacencyByLabel RewireAdjacencyByNum CopyAdjacencyList CopyNetwork FreeNode RemoveLink GetNode GetNodeDict GetLink IsThereNode IsThereLink IsThereLinkSoft RemoveIsolatedNodes CleanAdjacencies CountNodes TotalNLinks NodeDegree NodeStrength ClearAdjacencies RenumberNodes".split()},
 "C02": {G: "FBuildNetwork FPrintDegrees FPrintNetAdjacencyList FPrintPajekFile AddAdjacency".split()},
 "C03": {G: "MakeLabelDict NodeTreeLabelCompare CreateNodeTree GetNodeDict".split(), "lib/search.c": "*"},
 "C04": {"src/datastruct.c": "*", "src/movements.c": "CreateStack FreeStack AddToStack PopFromStack".split()},
 "C05": {G: "GetBFS AddPredecessor ClearPredecessors CountPredecessors Enqueue EnqueueAdjaList DequeueOne Dequeue RenewQueue ClearList ResetNodesState FPrintDistanceHistogram FPrintDistanceHistogramFromNode AveragePathLength AverageInverseDistance".split()},
 "C06": {G: "SumCommonLinks CalculateLinksBetweenNeig ClusteringCoefficient ClusteringCoefficient2 SquareClustering OneNodeClusteringCoefficient OneNodeSquareClustering CommonNeighbors JaccardIndex TopologicalOverlap".split()},
 "C07": {G: "AverageDegree AverageSquaredDegree Assortativity CalculateKnn".split()},
 "C08": {G: "CalculateLinkBetweenness CalculateBiggestLinkBetweenness CalculateNodeBetweenness NodeBetweennessStatistics".split()},
 "C09": {G: "IsGraphConnected AreConnectedList CountStronglyConnectedSets GetLargestStronglyConnectedSet GetLargestWeaklyConnectedSet GetAllConnectedSets".split(), M: ["ClustersPartition"]},
 "C10": {G: "RemoveRandomLinks AddRandomLinks RandomizeSymmetricNetwork".split(), "src/bipartite.c": ["RandomizeBipart"]},
 "C11": {"src/models.c": "*", "src/bipartite.c": ["BuildModularBipartiteNetwork"]},
 "C12": {M: "CreateHeaderGroup CreateGroup CreateEquiNPartition CreateEquiNPartitionSoft CreatePartitionFromInGroup RemovePartition AddNodeToGroup AddNodeToGroupFast AddNodeToGroupSoft RemoveNodeFromGroup RemoveNodeFromGroupFast MoveNode MoveNodeFast CompressPart GetGroup NGroups NNonEmptyGroups PartitionSize RemoveWithinGroupLinks RemoveBetweenGroupLinks NLinksToGroup NWeightLinksToGroup NLinksToGroupByNum StrengthToGroup StrengthToGroupByNum NG2GLinks NWeightG2GLinks NG2GLinksWeight MergeGroups MergeGroupsFast CopyGroup CopyPartition BuildNetFromGroup BuildNetFromGroupNeig GroupSizeStatistics GetEmptyGroup ResetNetGroup MapPartToNet MapPartToNetFast MapPartToNetSoft RemoveInterGroupLinks".split()},
 "C13": {M: "Modularity ModularityWeight".split(), "src/bipartite.c": "ModularityBipart ModularityBipartWeighted ModularityBipartWeightedFast".split(), "src/partition.c": ["PartitionModularity"], "src/fillpartitions.c": "EdgeListToAdjaArray ProjectBipartEdgeList smaller EdgeCompare".split()},
 "C14": {"src/movements.c": "dEMergeModules dEChangeModule ChangeModule MergeModules SplitModuleByComponent".split(), "src/partition.c": "CreatePartition CopyPartitionStruct CompressPartition".split(), "src/fillpartitions.c": ["AssignNodesToModules"]},
 "C15": {"src/sannealing.c": "*", M: "SAGroupSplit SACommunityIdent".split()},
 "C16": {M: "ParticipationCoefficient WeightedParticipationCoefficient WithinModuleRelativeDegree WithinModuleRelativeStrength CatalogRoleIdent CatalogRoleIdentStrength".split(), "src/bipartite.c": "ParticipationCoefficientBipart StatisticsParticipationCoefficientBipart".split(), "src/partition.c": "PartitionRolesMetrics GetRole".split()},
 "C17": {"src/bipartite.c": "CreateBipart FBuildNetworkBipart RemoveBipart NCommonLinksBipart SumProductsOfCommonWeightsBipart RemoveNodeBipart CopyBipart InvertBipart NLinksBipart ProjectBipart ProjectBipartWeighted FPrintPajekFileBipart FPrintBipart FPrintTabNodesBipart".split(), "src/fillpartitions.c": ["ProjectBipartEdgeList"]},
 "C18": {M: "FReadPartition FCreatePartition FPrintPartition FPrintPajekPartitionFile".split(), "src/io.c": "TabularOutput ClusteringOutput AssignNodesToModulesFromFile node_compare".split()},
 "C19": {M: "MutualInformation CorrectlyClassified".split()},
 "C20": {"src/missing.c": "PartitionH LinkScoreMCStep GibbsLinkScoreStep".split(), "src/sparse_missing.c": "SparsePartitionH SparseGibbsLinkScoreStep".split()},
 "C21": {"src/multiblock.c": "LogDegeneracy PartitionHMB LSMCStepMB ORPartitionHMB ORLSMCStepMB GibbsLinkScoreStepMB ORGibbsLinkScoreStepMB".split(), "src/only_deg.c": "LogDegeneracy_OD PartitionHMB_OD LSMCStepMB_OD GibbsLinkScoreStepMB_OD".split()},
 "C22": {"src/recommend.c": "H2State MCStep2State HKState MCStepKState GibbsStepKState".split(), "src/missing.c": "LSHKState LSMCStepKState".split()},
 "C23": {"src/missing.c": "LinkScore NetworkScore PartitionSampling LSMultiLinkScoreKState GibbsLinkScore".split(), "src/multiblock.c": "LinkScoreMB ORLinkScoreMB GibbsLinkScoreMB ORGibbsLinkScoreMB".split(), "src/only_deg.c": "LinkScoreMB_OD GibbsLinkScoreMB_OD".split(), "src/sparse_missing.c": ["SparseGibbsLinkScore"]},
 "C24": {"src/recommend.c": "CreateQuery FreeQuery CountUnobserved BuildUnobservedSet RemoveRatings ReadRecommenderObservations ReadQueries MultiLinkScore2State MultiLinkScoreKState GibbsMultiLinkScoreKState".split()},
 "C25": {T: "geometric_dist_val mean stddev max min fact Choose LogChoose InitializeFastLogChoose FastLogChoose InitializeFastLog FastLog InitializeFastLogFact FastLogFact InitializeFastLogGamma FastLogGamma InitializeHarmonicList CountLinesInFile".split()},
 "C26": {"src/matrix.c": "*", G: "CompareTwoNetworks AddTwoNetworks".split()},
 "C27": {"src/io.c": "*", "netcarto/main_netcarto.c": "*", "netcarto/main_netcarto_legacy.c": "*"},
 "C30": {"src/missing.c": "SBMError SBMStructureScore NetFromSBMScores NetReconstruct".split()},
 "C31": {"src/layout.c": "*"},
 "C28": {"utils/main_%s.c" % f: "*" for f in "countlinks getgiant lapspec nodeprop netprop netcompare netrandomize mutualinfo bipartitemodularity modularbipart".split()},
 "C29": {f: "*" for f in "reliability/main_reliability_links.c reliability/main_reliability_links_gibbs.c reliability/main_reliability_links_k.c reliability/main_reliability_reconstruct.c multiblock/main_reliability_links_mb.c recommender/main_multi_recommend_2.c recommender/main_multi_recommend_k.c recommender/main_multi_recommend_k_gibbs.c conflict/main_conflict.c".split()},
}
def functions(txt):
    """(name, first body line, last line) of each function"""
    L = txt.split("\n"); out = []; i = 0
    while i < len(L):
        if L[i].startswith("{") or (L[i].rstrip().endswith("{") and re.match(r"^[A-Za-z]", L[i]) and "(" in L[i] and "=" not in L[i]):
            j = i; name = None
            while j >= 0 and i - j < 45:
                m = re.match(r"^(?:[A-Za-z_][\w ]*[ *]+\**)?([A-Za-z_]\w*) *\(", L[j])
                if m and m.group(1) not in ("if", "for", "while"): name = m.group(1); break
                j -= 1
            k = i + 1
            while k < len(L) and not L[k].startswith("}"): k += 1
            if name: out.append((name, i, k))
            i = k
        i += 1
    return out
OPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=])", "<="), (r"(?<![>\-])>(?![>=])", ">="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r"(?<![+\w(,=\-*/<>] )(?<= )\+ ", "- "), (r"(?<=[\w)\]]) - ", " + "), (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", " + "), (r"(?<=[\w)\]]) ?/ ?(?=[\w(])", " * "),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<=\()int\)", "double)"), (r"\(double\) ?", ""),
       (r"\bn1\b", "n2"), (r"\bn2\b", "n1"), (r"\bg1\b", "g2"), (r"\bg2\b", "g1"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bcontinue\b", "break"), (r"\bbreak;", ";")]
def mutants(fn, txt, which):
    L = txt.split("\n"); out = []
    for name, a, b in functions(txt):
        if which != "*" and name not in which: continue
        com = False
        for k in range(a, b):
            l = L[k]
            s = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), l)
            if "/*" in s and "*/" not in s: com = True
            if com:
                if "*/" in s: com = False
                continue
            s = re.sub(r"//.*|/\*.*?\*/", lambda m: "\x01" * len(m.group(0)), s)
            if not s.strip("\x01 \t{}") or s.lstrip().startswith("#") or "printf" in s and "stderr" in s: continue
            if re.match(r"^\s*(static |unsigned |const )*(struct \w+|int|double|char|void|unsigned|FILE|float|gsl_\w+|long) [*\w]", s) and "=" not in s: continue
            for pat, rep in OPS:
                if rep == "" and s.count("(double)") != 1: continue
                for m in re.finditer(pat, s):
                    out.append((fn, name, k, l, l[:m.start()] + rep + l[m.end():]))
            if re.match(r"^\s*[\w\->.\[\]()*+ ,&/%=\"\x01]*;\s*\x01*$", s) and not re.match(r"^\s*(return|break|continue|int|double|struct|char|free)\b", s) and ("=" in s or "(" in s or "++" in s or "--" in s):
                out.append((fn, name, k, l, re.match(r"^\s*", l).group(0) + ";"))
            m = re.match(r"^(\s*(?:else )?if ?)\((.*)\)(\s*\{?\s*)$", s)
            if m: out.append((fn, name, k, l, l[:m.start(2)] + "!(" + l[m.start(2):m.end(2)] + ")" + l[m.end(2):]))
    seen = set(); res = []
    for m in out:
        if m[3] == m[4] or (m[0], m[2], m[4]) in seen: continue
        seen.add((m[0], m[2], m[4])); res.append(m)
    return res
def main():
    pid = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 60; seed = sys.argv[3] if len(sys.argv) > 3 else "1"; only = sys.argv[4:]
    W = int(os.environ.get("MUT_WORKERS", "3")); J = os.environ.get("MUT_JOBS", "3")
    ms = []
    for fn, which in MAP[pid].items(): ms += mutants(fn, open(R + "/" + fn).read(), only or which)
    rnd = random.Random(pid + seed); total = len(ms); by = {}
    for m in ms: by.setdefault((m[0], m[1]), []).append(m)
    for v in by.values(): rnd.shuffle(v)
    pick = []  # round robin weighted by the square root of the size
    w = {k: max(1, round(len(v) ** .5)) for k, v in by.items()}
    while len(pick) < min(N, total):
        for k in by:
            for _ in range(w[k]):
                if by[k]: pick.append(by[k].pop())
    pick = pick[:N] if len(pick) > N and not rnd.shuffle(pick) else pick
    base = "/tmp/mut.%s.%d" % (pid, os.getpid()); cache = "/tmp/mutcache"; os.makedirs(cache, exist_ok=True)
    import queue; q = queue.Queue()
    for w_ in range(W):
        d = "%s/%d" % (base, w_); os.makedirs(d)
        for s in ("src", "lib", "netcarto", "utils", "reliability", "multiblock", "only_deg", "recommender", "conflict"): shutil.copytree(R + "/" + s, d + "/" + s, ignore=shutil.ignore_patterns("*.o", "*.a", ".libs", "*.lo"))
        q.put(d)
    res = dict(killed=0, nobuild=0, survived=0, error=0)
    def one(m):
        fn, name, k, old, new = m; d = q.get()
        try:
            orig = open(R + "/" + fn).read(); L = orig.split("\n"); L[k] = new
            open(d + "/" + fn, "w").write("\n".join(L)); t0 = time.time()
            e = dict(os.environ, VERIF_REPO=d, MC_FAILFAST="1", MC_GRACE="0", MC_HANG="8", MC_JOBS=J, MC_OBJCACHE=cache, MC_NOEVIDENCE="1")
            r = subprocess.run(["python3", H + "/run.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            open(d + "/" + fn, "w").write(orig)
            if r.returncode == 1 and "VIOLATION" in r.stdout: res["killed"] += 1; return
            if r.returncode == 2 and "BUILD FAILED" in r.stdout: res["nobuild"] += 1; return
            res["survived" if r.returncode == 0 else "error"] += 1
            print("%s %s:%d %s (%.0fs)%s\n   - %s\n   + %s" % (pid, fn, k + 1, name, time.time() - t0, "" if r.returncode == 0 else " ERROR rc=%d %s" % (r.returncode, r.stdout[-200:]), old.strip(), new.strip()), flush=True)
        finally: q.put(d)
    with ThreadPoolExecutor(W) as ex: list(ex.map(one, pick))
    shutil.rmtree(base, ignore_errors=True)
    print("MUT %s total=%d run=%d %s" % (pid, total, len(pick), res), flush=True)
if __name__ == "__main__": main()

From df78e0b5e6f8cdf7d306a589c82273b11f239753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 01/62] fix: IsThereNode compares label contents instead of
 pointers

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..d771337 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From fe88052b0857c1a274a8d82fb6366bc94cb73f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:28 +0000
Subject: [PATCH 02/62] fix: SquareClustering does not dereference NULL for
 nodes without second neighbours

---
 src/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index d771337..5df3e91 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1906,7 +1906,7 @@ SquareClustering(struct node_gra *root)
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
@@ -1921,7 +1921,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
-- 
2.43.0


From 6fcf4516485da4e75d3eb21d462d0d5eb5ff3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:28 +0000
Subject: [PATCH 03/62] fix: AverageSquaredDegree no longer truncates the
 average to an integer

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 5df3e91..ec25a4a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1433,7 +1433,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From 937dbeaa11fcf0117be05fac6b53208fdef0a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 04/62] fix: GetAllConnectedSets keeps the links of components
 without the first node

ClearAdjacencies looks at the node numbers of adjacencies that have not been
rewired yet (always 0), so every component not containing node 0 lost all
its links.
---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index ec25a4a..a577dfe 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2950,7 +2950,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From a1e0b60cf3363eb5f13f1de9b3361f663113f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 05/62] fix: GetLargestWeaklyConnectedSet re-examines nodes
 after the set grows

---
 src/graph.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index a577dfe..ee2ecd9 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2804,6 +2804,9 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	// The nodes just added may be reachable from nodes that have
+	// already been examined
+	p3 = p;
       }
     }
 
-- 
2.43.0


From b5b2d57effc68b129a3bd8ddada2e206a90482ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 06/62] fix: PAGraph never selects the new node itself, so it
 always gets m links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 2553e230097536f83f67cae5348dc96f8b27e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 07/62] fix: BuildModularBipartiteNetwork selects a valid color
 for every draw

A draw of exactly 0 left the color at -1, and rounding of the cumulative
probability could take it beyond the last module.
---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..4fe46fd 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -229,7 +229,7 @@ BuildModularBipartiteNetwork(int *modSizes,
       dice = gsl_rng_uniform(gen);
       cum = 0.0;
       teamcol = -1;
-      while (cum < dice) {
+      while (cum <= dice && teamcol < nmod - 1) {
 	teamcol++;
 	cum += col_prob[teamcol];
       }
-- 
2.43.0


From 897970f20ed13247bd1e95d8462f633662ab0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 08/62] fix: AddRandomLinks honours symmetric_sw

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index ee2ecd9..309cd6d 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -998,7 +998,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From a117361f022a625eeaf100faaea5081d1a9c76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 09/62] fix: ProjectBipartWeighted keeps fractional weights

---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 4fe46fd..022146e 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,14 +631,14 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+	  weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
 	AddAdjacency(GetNodeDict(p2->label, dict),
 		     GetNodeDict(p1->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
       }
     }
   }
-- 
2.43.0


From 680113725a12cc0ab4a1a403e541984ebf6b15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 10/62] fix: CreatePartitionFromInGroup counts the links within
 groups once

---
 src/modules.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..23f55ab 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -277,6 +277,10 @@ CreatePartitionFromInGroup(struct node_gra *net)
     AddNodeToGroup(glist[p->inGroup], p);
   }
 
+  /* All nodes were marked with their group from the start, so links
+     within groups have been counted at both ends: count them again */
+  MapPartToNet(part, net);
+
   /* Free memory and return */
   free(glist);
   return part;
-- 
2.43.0


From e4ce1cefc26f5ce67b05662faeccf2e6bc0b4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 11/62] fix: a node removed from a group is no longer counted
 as a member

---
 src/modules.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 23f55ab..fb8bafe 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -484,6 +484,9 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* The node does not belong to any group now */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
@@ -520,6 +523,9 @@ RemoveNodeFromGroupFast(struct group *g, struct node_gra *node)
     /* Partially update the properties of the group */
     g->size--;
 
+    /* The node does not belong to any group now */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From 881cc7222859b082732b468627a63c49fe751c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 12/62] fix: do not use links after freeing them when removing
 links of groups

---
 src/modules.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index fb8bafe..70e588f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -687,8 +687,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -710,9 +710,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
@@ -1514,9 +1516,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if(n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From 103b70f801c75bb58a3d4b939d20d45521052968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 13/62] fix: BuildNetFromGroupNeig wires the links by label

Adjacencies copied softly carry no node number, so all of them were
pointed to the first node.
---
 src/modules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 70e588f..79f432e 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1146,7 +1146,8 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
+  RenumberNodes(net);
 
   return net;
 }
-- 
2.43.0


From 7a3f1f16be6f8aa6d73f153144e07ae6de172396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 14/62] fix: MapPartToNetSoft works on subsets of the network
 and leaves the partition alone

---
 src/modules.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 79f432e..58baa5f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1392,7 +1392,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1401,30 +1400,23 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups and mark the nodes */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
-      /* Update the properties of the node */
-      node->inGroup = g->label;
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+
+      /* Update the properties of the node (if it is in the network) */
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From 3b9b35674e8df835dbfb043a3f4f0c8c6606c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 15/62] fix: FReadPartition handles repeated separators and the
 end of the file

---
 src/modules.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 58baa5f..31d49fb 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -112,25 +112,23 @@ module, with the names of the nodes separated by tabulations.
 struct group*
 FReadPartition(FILE *inF){
   char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int noReadItems = 0;
+  int sep;
 
   struct group *g = NULL;
   struct group *part = NULL;
   int npart = 0, nfields = 0;
 
   part = CreateHeaderGroup();
-  g = CreateGroup(part, npart);
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+  while ((nfields = fscanf(inF, "%99[^\t\n]", label)) != EOF) {
+	if (nfields == 1) {
+	  if (g == NULL)
+		g = CreateGroup(part, npart++);
 	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
-		g = CreateGroup(part, npart);
-	  }
 	}
+	sep = fgetc(inF);
+	if (sep == '\n')
+	  g = NULL; /* The next label starts a new module */
   }
   return(part);
 }
-- 
2.43.0


From cb53c518d0cc8ae8aef43f931f0c6c9fe0f06c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 16/62] fix: FCreatePartition stops at the end of the file

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 31d49fb..0e771ec 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -159,7 +159,7 @@ FCreatePartition(FILE *inF)
 	if (noReadItems != 1)
 	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
 
-    while (strcmp(label, separator) != 0) {
+    while (noReadItems == 1 && strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
       noReadItems = fscanf(inF, "%s\n", &label[0]);
 	  if (noReadItems != 1)
-- 
2.43.0


From 1e04bfe9f22613a5cc10d0239b99e679e01459f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 17/62] fix: CorrectlyClassified divides by the number of
 nodes, not twice that number

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 0e771ec..acd07fc 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1764,7 +1764,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 9a67d4db5710565fdd7f6745fcf61ef44d1b7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 18/62] fix: CreateEquiNPartition stops at the last node of the
 network

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index acd07fc..8242bf3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -195,7 +195,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p != NULL && (p = p->next) != NULL) {
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From 83d17afc888e0d8100162e1864147ef65753cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 19/62] fix: ProjectBipartEdgeList does not use memory beyond
 its edge lists

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..e7a715e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -155,7 +155,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -164,7 +164,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -182,7 +182,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -206,7 +206,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -231,7 +231,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 560b4f2b089e8dbb860bc4c45314bd5feed99faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 20/62] fix: SplitModuleByComponent stays within the module it
 splits

---
 src/movements.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..869f381 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,8 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  // Only the subgraph induced by the target module is traversed.
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From 7632ad68a2f3134c505a367f246f91abbedb948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 21/62] fix: GeneralSA returns the final partition if no better
 one was saved

---
 src/sannealing.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..2bda774 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -52,6 +52,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int nochange_count=0;
 
   double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
+  if (part->M < 2) return(0); // A single module: there are no moves.
   info ("#Simulated annealing:\n");
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
@@ -224,7 +225,14 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 
   info ("# End of SA, best partition so far: %e\n",best_E);
 
-  FreePartition(part);
+  // Return the final partition if it is better than the best one saved
+  // (or if none was saved).
+  if (best_part == NULL || E > best_E){
+	if (best_part != NULL)
+	  FreePartition(best_part);
+	best_part = part;
+  } else
+	FreePartition(part);
   *ppart = best_part;
   return(0);
 }
-- 
2.43.0


From b088f32d93e95b1c952b1609be10a72588041d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 22/62] fix: AssignNodesToModulesFromFile reads the partitions
 that netcarto writes

---
 src/io.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..26eedfe 100644
--- a/src/io.c
+++ b/src/io.c
@@ -249,7 +249,7 @@ AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
   char label[MAX_LABEL_LENGTH];
-  char sep[2];
+  int sep;
   int j = 0, nfields = 0, nnode = part->N;
   hcreate(part->N);
   int i;
@@ -262,10 +262,12 @@ AssignNodesToModulesFromFile(FILE *inF,
   }
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
-	  e.key = label;
-	  ep = hsearch(e, FIND);
+	nfields=fscanf(inF,"%99[^\t\n]",label);
+	sep = fgetc(inF);
+	e.key = label;
+	ep = nfields == 1 ? hsearch(e, FIND) : NULL;
+	// Fields that are not nodes (like the header lines) are skipped.
+	if (ep != NULL) {
 	  i = (int) ep->data;
 	  nnode--;
 
@@ -285,9 +287,10 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
 	}
+	// The end of a line closes the module, if it has any nodes.
+	if (sep == '\n' && j < part->M && part->modules[j]->size)
+	  j++;
   }
 
   CompressPartition(part);
-- 
2.43.0


From 780115f8d87fe0a18a9920e9aef679b4c25df226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 23/62] fix: SACommunityIdent uses as many groups as nodes when
 ngroup is 0

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 8242bf3..a33901f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2348,6 +2348,8 @@ SACommunityIdent(struct node_gra *net,
     break;
 
   case 'r':        /*  Random placement of nodes in groups */
+    if (ngroup == 0)
+      ngroup = nnod;
     glist = (struct group **) calloc(ngroup, sizeof(struct group *));
     lastg = part;
     for (i=0; i<ngroup; i++)
-- 
2.43.0


From 1ad673f927429811be0c10e693594c3f4f102347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 24/62] fix: SACommunityIdent finishes with a single group and
 without iterations

---
 src/modules.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index a33901f..6ad8046 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2386,7 +2386,7 @@ SACommunityIdent(struct node_gra *net,
   energy = Modularity(part);
 
   /* Temperature loop */
-  while (T > Tf && count < limit) {
+  while (ngroup > 1 && T > Tf && count < limit) {
 
     /* Output */
     switch (output_sw) {
@@ -2629,7 +2629,8 @@ SACommunityIdent(struct node_gra *net,
   } /*  End of simulated annealing */
  
   /* Free memory */
-  RemovePartition(best_part);
+  if (best_part != NULL)
+    RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0


From ceb8dc68e248764ddc8967b9ee6095a2439fed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:42 +0000
Subject: [PATCH 25/62] fix: WithinModuleRelativeStrength is zero, not NaN,
 when all strengths are equal

---
 src/modules.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 6ad8046..eae718e 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1990,7 +1990,10 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   }
   kmean /= (double)(group->size);
   k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+
+  // Differences within the rounding error are not differences
+  if (k2mean - kmean * kmean > 1e-12 * k2mean)
+    kstd = sqrt(k2mean - kmean * kmean);
 
   // Calculate the z-score
   if (kstd == 0.0)
-- 
2.43.0


From 291f9090e8914746be391f76b673e2aace36e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:42 +0000
Subject: [PATCH 26/62] fix: PartitionRolesMetrics does not turn rounding
 errors into z-scores

---
 src/partition.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..8afe9dd 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -203,7 +203,8 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   // Compute the z-score.
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	if (std[mod])
+	// Differences within the rounding error are not differences.
+	if (std[mod] > 1e-10 * fabs(mean[mod]))
 	  connectivity[i] = (strengthToModule[i+N*mod] - mean[mod]) / std[mod];
 	else
 	  connectivity[i] = 0;
-- 
2.43.0


From cf0d1452bc80c525ac1d51d32a7f27160b519084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 27/62] fix: FPrintTabNodesBipart prints to the file it is
 given

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 022146e..4648668 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -994,7 +994,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From 058aeefc30f5b5eb093262715f98b42c6e4cb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:19 +0000
Subject: [PATCH 28/62] fix: Gibbs steps used uninitialized values when all
 nodes are in one group

With a single group in the shortlist the loop over destinations never
set noldg, n2oldg, oldg2oldg, effectng and n2gList, which are then used
for the move to an empty group and to update G2G.
---
 src/missing.c        |  8 ++++++++
 src/multiblock.c     | 16 ++++++++++++++++
 src/only_deg.c       |  8 ++++++++
 src/sparse_missing.c |  8 ++++++++
 4 files changed, 40 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..675bf99 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2053,6 +2053,14 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that depend only on the old group (needed below even
+       if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    n2gList[oldgnum] = n2oldg;
+    effectng = 1;
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..79b5df1 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,14 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that depend only on the old group (needed below even
+       if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    n2gList[oldgnum] = n2oldg;
+    effectng = 1;
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2000,14 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that depend only on the old group (needed below even
+       if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    n2gList[oldgnum] = n2oldg;
+    effectng = 1;
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..df5e851 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,14 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that depend only on the old group (needed below even
+       if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    n2gList[oldgnum] = n2oldg;
+    effectng = 1;
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..db1d37d 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,14 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that depend only on the old group (needed below even
+       if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    n2gList[oldgnum] = n2oldg;
+    effectng = 1;
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From 2ca1d7f76d36312f1edcb4d8d63bd6f3dc4884dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:19 +0000
Subject: [PATCH 29/62] fix: Gibbs steps read outside the shortlist when the
 random draw is zero

A draw of exactly 0 selected slg[-1]; rounding of the normalization
could also run past the end of the shortlist.
---
 src/missing.c        | 4 ++--
 src/multiblock.c     | 8 ++++----
 src/only_deg.c       | 4 ++--
 src/recommend.c      | 3 ++-
 src/sparse_missing.c | 4 ++--
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 675bf99..456bdf0 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2286,9 +2286,9 @@ GibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/multiblock.c b/src/multiblock.c
index 79b5df1..27ea616 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1604,9 +1604,9 @@ GibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
@@ -2248,9 +2248,9 @@ ORGibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/only_deg.c b/src/only_deg.c
index df5e851..5e401a0 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -967,9 +967,9 @@ GibbsLinkScoreStepMB_OD(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..4a7a1da 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -2119,8 +2119,9 @@ GibbsStepKState(int K,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice)
+      do {
 	cum += exp(-dH[slg[target++]]);
+      } while (cum < dice && target < (*slgsize));
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
     }
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index db1d37d..c47dd7a 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -310,9 +310,9 @@ SparseGibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
-- 
2.43.0


From e50429727a86983aab081b217a7cd2c9bf65ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:34 +0000
Subject: [PATCH 30/62] fix: harmonic number tables of the multiblock models
 were too short

With r = nnod*(nnod-1)/2 pairs in a group, HarmonicList[r+1] and
HarmonicList[r+2] are used, but the table only had r+1 entries.
---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index 27ea616..c031a4f 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1759,7 +1759,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2403,7 +2403,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index 5e401a0..8e4c763 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1122,7 +1122,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 9b8fe86ffcd342febba9aff851be9b5c229e1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:34 +0000
Subject: [PATCH 31/62] fix: degeneration-only Gibbs sampler started from the
 energy of the AND model

---
 src/only_deg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index 8e4c763..a51749e 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1040,7 +1040,7 @@ GibbsThermalizeLSMCMB_OD(double *H,
 	/*PartitionHMB(part, linC, HarmonicList);*/ /* Number of groups */
 	break;
       case 'd':
-	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB(part, linC, HarmonicList),
+	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB_OD(part, linC, HarmonicList),
 		NNonEmptyGroups(part));
 	break;
       default:
@@ -1166,7 +1166,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   }
 
   /* Initial energy */
-  H = PartitionHMB(part, linC, HarmonicList);
+  H = PartitionHMB_OD(part, linC, HarmonicList);
 
   /*
     GET READY FOR THE SAMPLING
@@ -1212,7 +1212,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
       fprintf(stderr, "%d %lf\n", iter, H);
       break;
     case 'd':
-      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB(part, linC, HarmonicList),
+      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB_OD(part, linC, HarmonicList),
 	      NNonEmptyGroups(part));
       /* FPrintPartition(stderr, part, 0); */
       break;
-- 
2.43.0


From 59d7ff01e6143bd0914e278798c55ab04bdbc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 32/62] fix: CountLinesInFile counted lines of 999 or more
 characters several times

---
 src/tools.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..fc5e3cd 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -609,12 +609,15 @@ int
 CountLinesInFile(char *inFileName)
 {
   char line[1000];
-  int n=0;
+  int n=0, newLine=1;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
-    n++;
+  while (fgets(line, 1000, inFile)) {
+    if (newLine)
+      n++;
+    newLine = (line[strlen(line) - 1] == '\n');
+  }
   fclose(inFile);
 
   return n;
-- 
2.43.0


From 6bacdc6dc1e73f6479d04baf89098227361f6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 33/62] fix: LinkScoreMCStep used uninitialized counts for
 groups that were empty from the start

---
 src/missing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/missing.c b/src/missing.c
index 456bdf0..829ef27 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -181,9 +181,11 @@ LinkScoreMCStep(int factor,
   slg = allocate_i_vec(nnod);  // Shortlist of groups
   slgsize = 0;
   g = part;
-  while ((g=g->next) != NULL)
+  while ((g=g->next) != NULL) {
+    n2gList[g->label] = 0;  // Groups not in the shortlist have no links
     if (g->size > 0)
       slg[slgsize++] = g->label;
+  }
 
   /* Steps */
   for (move=0; move<nnod*factor; move++) {
-- 
2.43.0


From b5a5baaf95176884c6b1b6848aa0296192b2eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 34/62] fix: SACommunityIdent and SAGroupSplit were called
 through an implicit int declaration

---
 src/modules.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/modules.h b/src/modules.h
index ed30750..39a6c0b 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -114,6 +114,24 @@ void GroupSizeStatistics(struct group *part,
 			 double *theMax);
 struct group *GetEmptyGroup(struct group *part);
 
+/*
+  ---------------------------------------------------------------------
+  Module identification (legacy)
+  ---------------------------------------------------------------------
+*/
+struct group *SAGroupSplit(struct group *targ,
+			   double Ti, double Tf, double Ts,
+			   int cluster_sw,
+			   gsl_rng *gen);
+struct group *SACommunityIdent(struct node_gra *net,
+			       double Ti, double Tf, double Ts,
+			       double fac,
+			       int ngroup,
+			       char initial_sw,
+			       int collective_sw,
+			       char output_sw,
+			       gsl_rng *gen);
+
 /* a la DB Stouffer */
 void MergeGroupsFast(struct group *g1, struct group *g2);
 
-- 
2.43.0


From 0fe4528cb48b67bd81d3d5cb399326d03d475ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 35/62] fix: netprop overflowed its list of components on
 networks with more than 1000

---
 utils/main_netprop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..aa3d0d8 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -39,6 +39,8 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **)calloc(CountNodes(net),
+					   sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
-- 
2.43.0


From 6ec428c18e218e595eb0bdeed01ee14eb2427e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 36/62] fix: modularbipart ignored the team size

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From 4c35a52b7207625e8e8a38bd2a01a2e44324b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 37/62] fix: programs used one more argument than they checked
 for

---
 multiblock/main_reliability_links_mb.c            | 2 +-
 multiblock/main_reliability_links_mb_OR.c         | 2 +-
 multiblock/main_reliability_links_mb_gibbs.c      | 2 +-
 multiblock/main_reliability_links_mb_gibbs_OR.c   | 2 +-
 only_deg/main_only_degeneration_mb.c              | 2 +-
 only_deg/main_only_degeneration_mb_gibbs.c        | 2 +-
 recommender/main_multi_recommend_2.c              | 2 +-
 recommender/main_multi_recommend_k.c              | 2 +-
 recommender/main_multi_recommend_k_gibbs.c        | 2 +-
 reliability/main_reliability_links.c              | 2 +-
 reliability/main_reliability_links_gibbs.c        | 2 +-
 reliability/main_reliability_links_gibbs_sparse.c | 2 +-
 reliability/main_reliability_links_k.c            | 2 +-
 utils/main_netrandomize.c                         | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..d166f06 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..864186a 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..3771c8b 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..b245070 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return;
   }
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..269661a 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..cdd9d68 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..c4e2e81 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..16a01e7 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..aa48c9a 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..2924baf 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..9b24aaa 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..39428cc 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..79edad3 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..eee87b7 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From 10d3978f199ba3a6476072a011f94090cb348831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 38/62] fix: score file name overflowed its buffer for network
 files with long names

---
 multiblock/main_reliability_links_mb.c          | 2 +-
 multiblock/main_reliability_links_mb_OR.c       | 2 +-
 multiblock/main_reliability_links_mb_gibbs.c    | 2 +-
 multiblock/main_reliability_links_mb_gibbs_OR.c | 2 +-
 only_deg/main_only_degeneration_mb.c            | 2 +-
 only_deg/main_only_degeneration_mb_gibbs.c      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index d166f06..5025f6c 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[4200], outFileNameAND[4200];
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 864186a..6c1d054 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[4200];
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3771c8b..ad7c5be 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[4200], outFileNameAND[4200];
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index b245070..f92db6d 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[4200];
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 269661a..0728de6 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[4200];
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index cdd9d68..bdd5da0 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[4200];
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0


From 2f0d736dd76ae207dcc3217a70fb8de10186b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 39/62] fix: decorrelation time of two-node networks was
 estimated forever

---
 src/missing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 829ef27..b458214 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -74,6 +74,13 @@ CalculateDecay(int nnod, double x1, double y1, double x2, double y2)
   gsl_vector *x = gsl_vector_alloc(n);
   double result;
   
+  /* Two observations at the same time do not determine the decay (this
+     happens for networks with less than 5 nodes) */
+  if (x1 == x2) {
+    gsl_vector_free(x);
+    return sqrt(nnod);
+  }
+
   for (i=0; i<n; i++)
     gsl_vector_set(x, i, x_init[i]);
   
-- 
2.43.0


From 6865fb4ee9775f6da00b3bb4a42e3e282d26b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 40/62] fix: reliability_links_k ran forever on networks with
 two nodes

---
 src/missing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index b458214..eb3fcec 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1581,7 +1581,11 @@ LSGetDecorrelationStepKState(int K,
       }
     }
     y2 = MutualInformation(partRef, part, 0);
-    decay[rep] = 2. * CalculateDecay(nnod, x1, y1, x2, y2);
+    /* With two nodes the partition alternates, so there is no decay */
+    if (nnod > 2)
+      decay[rep] = 2. * CalculateDecay(nnod, x1, y1, x2, y2);
+    else
+      decay[rep] = 1.;
     switch (verbose_sw) {
     case 'q':
       break;
@@ -1690,7 +1694,7 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) <= HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From e98867a09bd57ad62e88e560740072da6b500ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 41/62] fix: decorrelation step was undefined when all its
 estimates agreed

---
 src/missing.c    | 10 ++++++++++
 src/multiblock.c | 10 ++++++++++
 src/only_deg.c   |  5 +++++
 src/recommend.c  | 10 ++++++++++
 4 files changed, 35 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index eb3fcec..8b0b6e5 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -424,6 +424,11 @@ GetDecorrelationStep(double *H,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   /* Clean up */
   free_d_vec(decay);
@@ -1627,6 +1632,11 @@ LSGetDecorrelationStepKState(int K,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   switch (verbose_sw) {
   case 'q':
diff --git a/src/multiblock.c b/src/multiblock.c
index c031a4f..35357cd 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -349,6 +349,11 @@ GetDecorrelationStepMB(double *H,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   /* Clean up */
   free_d_vec(decay);
@@ -979,6 +984,11 @@ ORGetDecorrelationStepMB(double *H,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   /* Clean up */
   free_d_vec(decay);
diff --git a/src/only_deg.c b/src/only_deg.c
index a51749e..ae5bb7a 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -347,6 +347,11 @@ GetDecorrelationStepMB_OD(double *H,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   /* Clean up */
   free_d_vec(decay);
diff --git a/src/recommend.c b/src/recommend.c
index 4a7a1da..83f5439 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -624,6 +624,11 @@ GetDecorrelationStep2State(double *H,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   switch (verbose_sw) {
   case 'q':
@@ -1462,6 +1467,11 @@ GetDecorrelationStepKState(int K,
       norm++;
     }
   }
+  /* All estimates agree up to rounding errors */
+  if (norm == 0) {
+    result = meanDecay;
+    norm = 1;
+  }
   
   switch (verbose_sw) {
   case 'q':
-- 
2.43.0


From fc0045108228699f97e843a79d333cb5e68c6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 42/62] fix: chains did not move between samples when the
 decorrelation step was estimated as 0

---
 src/missing.c    | 6 ++++++
 src/multiblock.c | 6 ++++++
 src/only_deg.c   | 3 +++
 src/recommend.c  | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 8b0b6e5..d22f5a2 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -429,6 +429,9 @@ GetDecorrelationStep(double *H,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   /* Clean up */
   free_d_vec(decay);
@@ -1637,6 +1640,9 @@ LSGetDecorrelationStepKState(int K,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   switch (verbose_sw) {
   case 'q':
diff --git a/src/multiblock.c b/src/multiblock.c
index 35357cd..ebca518 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -354,6 +354,9 @@ GetDecorrelationStepMB(double *H,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   /* Clean up */
   free_d_vec(decay);
@@ -989,6 +992,9 @@ ORGetDecorrelationStepMB(double *H,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   /* Clean up */
   free_d_vec(decay);
diff --git a/src/only_deg.c b/src/only_deg.c
index ae5bb7a..78edf1b 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -352,6 +352,9 @@ GetDecorrelationStepMB_OD(double *H,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   /* Clean up */
   free_d_vec(decay);
diff --git a/src/recommend.c b/src/recommend.c
index 83f5439..e6aa4c9 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -629,6 +629,9 @@ GetDecorrelationStep2State(double *H,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   switch (verbose_sw) {
   case 'q':
@@ -1472,6 +1475,9 @@ GetDecorrelationStepKState(int K,
     result = meanDecay;
     norm = 1;
   }
+  /* The chain has to move between samples */
+  if (result < norm)
+    result = norm;
   
   switch (verbose_sw) {
   case 'q':
-- 
2.43.0


From 165da8e95a15b38ff9ae29ab829cec535a055370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 43/62] fix: thermalization of the recommenders never ended
 when the energy is constant

---
 src/recommend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/recommend.c b/src/recommend.c
index e6aa4c9..9d5a58b 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -706,7 +706,7 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) <= HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1546,7 +1546,7 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) <= HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2229,7 +2229,7 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if (HMean0 - HStd0 / sqrt(nrep) <= HMean1 + HStd1 / sqrt(nrep)) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From 7a8fd39734ff6a7de736076e7efd69e712fc62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 44/62] fix: recommenders ran forever on a single rating by a
 single user

---
 src/recommend.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/recommend.c b/src/recommend.c
index 9d5a58b..a381bb7 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -300,6 +300,10 @@ MCStep2State(int factor,
   int j; 
   int move_in;
 
+  /* Nothing can move if there is only one node in each set */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -1151,6 +1155,10 @@ MCStepKState(int K,
   int move_in;
   int k;
 
+  /* Nothing can move if there is only one node in each set */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
-- 
2.43.0


From e6d004a225445aef1d7ef06eb6bec3009022da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 45/62] fix: NetReconstruct crashed on networks with no link or
 no missing link

---
 src/missing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index d22f5a2..c32e7b8 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1093,6 +1093,7 @@ NetReconstruct(struct node_gra *netObs,
 
       /* Get the largest missing link score and the smallest link
 	 score */
+      n1Add = n2Add = n1Remove = n2Remove = NULL;
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
       for (n1=0; n1<nnod; n1++) {
@@ -1112,6 +1113,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Nothing can be exchanged in an empty or complete network */
+      if (n1Add == NULL || n1Remove == NULL)
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
@@ -1134,8 +1139,10 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
-- 
2.43.0


From 79c050563743b0a59540a268bec10bcd8b41a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 46/62] fix: ArrangeComponents used the component centers
 uninitialized

---
 src/layout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..8ca6934 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -148,6 +148,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     while (g->next != NULL) {
       g = g->next;
       glist[g->label] = g;
+      xce[g->label] = yce[g->label] = 0.0;
       dxtot[g->label] = dytot[g->label] = 0.0;
 
       // Find the center of the component and of the network
@@ -236,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From c9221d10f6d1db420fb214642ecca2ee3f2723bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 47/62] fix: normalizing a layout without extent gave NaN
 coordinates

---
 src/layout.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 8ca6934..6d53280 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -273,8 +273,8 @@ void NormalizeCoordinates(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
+    temp->coorX = (xmax > xmin) ? (temp->coorX - xmin) / (xmax - xmin) : 0.;
+    temp->coorY = (ymax > ymin) ? (temp->coorY - ymin) / (ymax - ymin) : 0.;
   }
 }
 
@@ -312,9 +312,9 @@ void NormalizeCoordinates3D(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
-    temp->coorZ = (temp->coorZ - zmin) / (zmax - zmin);
+    temp->coorX = (xmax > xmin) ? (temp->coorX - xmin) / (xmax - xmin) : 0.;
+    temp->coorY = (ymax > ymin) ? (temp->coorY - ymin) / (ymax - ymin) : 0.;
+    temp->coorZ = (zmax > zmin) ? (temp->coorZ - zmin) / (zmax - zmin) : 0.;
   }
 }
 
-- 
2.43.0


From 26bd30377a5decd23b19d078189dee1c87ac322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 48/62] fix: nodes outside every box when a layout has no
 extent in some direction

---
 src/layout.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 6d53280..b570128 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -319,6 +319,17 @@ void NormalizeCoordinates3D(struct node_gra *net)
 }
 
 
+// Row, column or plane of the box with normalized coordinate x. Nodes
+// are kept inside the boxes when the system has (almost) no extent in
+// some direction and the normalization is meaningless.
+static int BoxNumber(double x, int nbox)
+{
+  x = floor(x * (double)nbox);
+  if (!(x > 0.))
+    return 0;
+  return (x < nbox) ? (int)x : nbox - 1;
+}
+
 // Given the coordinates of a node, and the size of the system, find
 // out in which box a node is
 int AssignBox(struct node_gra *node, int nbox,
@@ -336,8 +347,8 @@ int AssignBox(struct node_gra *node, int nbox,
   // Determine row and column
   normx = (node->coorX - xmin) / (xmax - xmin);
   normy = (node->coorY - ymin) / (ymax - ymin);
-  intx = floor(normx * (double)nbox);
-  inty = floor(normy * (double)nbox);
+  intx = BoxNumber(normx, nbox);
+  inty = BoxNumber(normy, nbox);
 
   return inty * nbox + intx;
 }
@@ -759,9 +770,9 @@ int AssignBox3D(struct node_gra *node, int nbox,
   normx = (node->coorX - xmin) / (xmax - xmin);
   normy = (node->coorY - ymin) / (ymax - ymin);
   normz = (node->coorZ - zmin) / (zmax - zmin);
-  intx = floor(normx * (double)nbox);
-  inty = floor(normy * (double)nbox);
-  intz = floor(normz * (double)nbox);
+  intx = BoxNumber(normx, nbox);
+  inty = BoxNumber(normy, nbox);
+  intz = BoxNumber(normz, nbox);
 
   return intz * nbox * nbox + inty * nbox + intx;
 }
-- 
2.43.0


From 2efe524e84567453aa43657b859aaec5fd99d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 49/62] fix: PotentialEnergy3D considered the boxes of the
 first plane only

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index b570128..ae60bce 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -848,7 +848,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From 465cf525237e98483833afe6a4da5effadffed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 50/62] fix: the assortativity overflowed for networks with
 large hubs

---
 src/graph.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 309cd6d..a27b259 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2368,7 +2368,7 @@ Assortativity(struct node_gra *net)
   struct node_gra *p;
   struct node_lis *li;
   int *deg;
-  int jk,jpk,j2pk2;
+  double jk,jpk,j2pk2;
   int M;
   double r;
 
@@ -2391,10 +2391,10 @@ Assortativity(struct node_gra *net)
   while ((p = p->next) != NULL) {
     li = p->neig;
     while ((li = li->next) != NULL) {
-      jk += deg[p->num] * deg[(li->ref)->num];
-      jpk += deg[p->num] + deg[(li->ref)->num];
-      j2pk2 += deg[p->num] * deg[p->num] + 
-	deg[(li->ref)->num] * deg[(li->ref)->num];
+      jk += (double)deg[p->num] * deg[(li->ref)->num];
+      jpk += (double)deg[p->num] + deg[(li->ref)->num];
+      j2pk2 += (double)deg[p->num] * deg[p->num] + 
+	(double)deg[(li->ref)->num] * deg[(li->ref)->num];
     }
   }
 
-- 
2.43.0


From f111923d35a1475e26e82d257589430b5368c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 51/62] fix: the average squared degree overflowed for networks
 with large hubs

---
 src/graph.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index a27b259..447cefd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1426,15 +1426,16 @@ double
 AverageSquaredDegree(struct node_gra *root)
 {
   struct node_gra *p=root;
-  int k, nnod=0, k2sum=0;
+  int k, nnod=0;
+  double k2sum=0.0;
 
   while ((p = p->next) != NULL) {
     nnod++;
     k = NodeDegree(p);
-    k2sum += k * k;
+    k2sum += (double)k * k;
   }
 
-  return (double)k2sum / (double)nnod;
+  return k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From df1360200519df34d924a93091c7e7912ebe3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 52/62] fix: the number of shortest paths overflowed in the
 node betweenness

---
 src/graph.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 447cefd..4974573 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2253,8 +2253,8 @@ CalculateNodeBetweenness(struct node_gra *net)
   struct stack *S;
   struct queue *Q;
   struct queue **P;
-  int *sigma, *d;
-  double *delta;
+  int *d;
+  double *sigma, *delta;
   int nnod = CountNodes(net);
   int i;
 
@@ -2268,7 +2268,7 @@ CalculateNodeBetweenness(struct node_gra *net)
   while ((s = s->next) != NULL) {
     S = stack_create();
     P = (struct queue **)calloc(nnod, sizeof(struct queue *));
-    sigma = allocate_i_vec(nnod);
+    sigma = allocate_d_vec(nnod);
     d = allocate_i_vec(nnod);
     delta = allocate_d_vec(nnod);
     Q = queue_create();
@@ -2317,7 +2317,7 @@ CalculateNodeBetweenness(struct node_gra *net)
       queue_free(P[i]);
     }
     free(P);
-    free_i_vec(sigma);
+    free_d_vec(sigma);
     free_i_vec(d);
     free_d_vec(delta);
     queue_free(Q);
-- 
2.43.0


From 5d2d8796c858dab37c864ad545203511c0cb1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 53/62] fix: the clustering coefficients overflowed for
 networks with large hubs

---
 src/graph.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 4974573..8183c8c 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1803,7 +1803,7 @@ ClusteringCoefficient(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       C_v = CalculateLinksBetweenNeig(list,root);
-      C_av += (double)C_v/(double)(k_v*(k_v-1));
+      C_av += (double)C_v/((double)k_v*(double)(k_v-1));
     }
     else {
       nodes--;
@@ -1828,7 +1828,7 @@ ClusteringCoefficient2(struct node_gra *root)
   int nodes,*size,res_size;
   struct node_bfs *list;
   struct node_gra *p = root;
-  int tri,ctr;  //#triangles and #connected triplets
+  double tri,ctr;  //#triangles and #connected triplets
   int k_v;
   double C;
 
@@ -1851,14 +1851,14 @@ ClusteringCoefficient2(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       tri += CalculateLinksBetweenNeig(list,root);
-      ctr += k_v*(k_v-1);
+      ctr += (double)k_v*(double)(k_v-1);
     }
     else
       nodes--;
     ClearList(list,size);
   }
 
-  C = (double)tri/(double)ctr;
+  C = tri/ctr;
 
   free(list);
   return C;
-- 
2.43.0


From bb506dbd79186232f4ff7fa6c2b8a7842d3ae0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 54/62] fix: the square clustering overflowed for networks with
 hubs

---
 src/graph.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 8183c8c..78cd009 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1878,7 +1878,7 @@ SquareClustering(struct node_gra *root)
   struct node_gra *p = root;
   double C_av;
   int k1,k2;
-  int C_v;
+  double C_v;
   int npre;
   int totnodes;
   int k1b;
@@ -1919,12 +1919,12 @@ SquareClustering(struct node_gra *root)
       while(pl != NULL){
 	k2++;
 	npre = CountPredecessors(pl);
-	C_v += npre*(npre-1);
+	C_v += (double)npre*(double)(npre-1);
 	pl = pl->next;
       }
 
       if(k1>1 && k2>0){
-	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
+	C_av += C_v/((double)k2*(double)k1*(double)(k1-1));
       }
       else
 	nodes--;
@@ -1992,7 +1992,7 @@ OneNodeSquareClustering(struct node_gra *node,
   struct node_bfs *lp;
   struct node_bfs *pl;
   int k1,k2;
-  int C_v;
+  double C_v;
   int npre;
   double T;
   int sizeant;
@@ -2029,7 +2029,7 @@ OneNodeSquareClustering(struct node_gra *node,
     while(pl != NULL){
       k2++;
       npre = CountPredecessors(pl);
-      C_v += npre*(npre-1);
+      C_v += (double)npre*(double)(npre-1);
       pl = pl->next;
     }
 
@@ -2039,7 +2039,7 @@ OneNodeSquareClustering(struct node_gra *node,
   else
     return -3; // all nodes are first neighbors!!
   
-  T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
+  T = C_v/((double)k2*(double)k1*(double)(k1-1));
 
   ClearList(list,size);
   free(list);
-- 
2.43.0


From a0fbe62561052dfe53767fb72f6d0d0e916e8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 55/62] fix: the participation coefficient overflowed for large
 hubs

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index eae718e..dd3fe44 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1870,7 +1870,7 @@ ParticipationCoefficient(struct node_gra *node)
   if (nlink != 0) {
     while ((nei = nei->next) != NULL) {
       toGroup = NLinksToGroupByNum(node, nei->ref->inGroup);
-      P += (double)toGroup / (double)(nlink * nlink);
+      P += (double)toGroup / ((double)nlink * (double)nlink);
     }
     P = 1.0 - P;
   }
-- 
2.43.0


From 1dfb0f973b86ae4300f5124dc005bcea9eb0dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 56/62] fix: the mutual information overflowed for large
 partitions

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index dd3fe44..c9b9e91 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1667,8 +1667,8 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
 	    }
 	  } /* Overlap size S12 has been calculated */
 	  if (S12 > 0)
-	    H12 += (double)S12 * log((double)(S12 * S) /
-				 (double)(S1 * S2));
+	    H12 += (double)S12 * log((double)S12 * (double)S /
+				 ((double)S1 * (double)S2));
 	}
       }
     }
-- 
2.43.0


From 4a5c65b068f94a18aa3b94bdf9d7103dccea9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 57/62] fix: the block model overflowed for networks with many
 links

---
 src/modules.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index c9b9e91..d6029d3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -754,7 +754,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
       }
     }
   }
-  prob = 2.0 * (double)links / (double)(nodes * (nodes - 1));
+  prob = 2.0 * (double)links / ((double)nodes * (double)(nodes - 1));
 
   /* Calculate and print the blockmodel */
   g1 = part;
@@ -781,33 +781,33 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	  case 'p':
 	    if (g1 == g2)
 	      bij = (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * (g1->size - 1));
+		((double)g1->size * (double)(g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * g2->size);
+		((double)g1->size * (double)g2->size);
 	    break;
 	  case 'e':
 	    if (g1 == g2)
 	      bij = (double)g1->inlinks / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    else
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-	      av = prob * (double)(g1->size * (g1->size - 1) / 2.0);
-	      sig = sqrt((double)(g1->size * (g1->size - 1) / 2.0) *
+	      av = prob * ((double)g1->size * (double)(g1->size - 1) / 2.0);
+	      sig = sqrt(((double)g1->size * (double)(g1->size - 1) / 2.0) *
 			 prob * (1.0 - prob));
 	      bij = ((double)g1->inlinks - av) / sig;
 	    }
 	    else {
-	      av = prob * (double)(g1->size * g2->size);
-	      sig = sqrt((double)(g1->size * g2->size) * prob * (1.0 - prob));
+	      av = prob * ((double)g1->size * (double)g2->size);
+	      sig = sqrt(((double)g1->size * (double)g2->size) * prob * (1.0 - prob));
 	      bij = ((double)NG2GLinks(g1, g2) - av) / sig;
 	    }
 	    break;
-- 
2.43.0


From 0fadbe77e1ccf2f456a5c24b92ec3212160b6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 58/62] fix: the block model halved the probability of
 connection within a group

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index d6029d3..f68416a 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -781,7 +781,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	  case 'p':
 	    if (g1 == g2)
 	      bij = (double)NG2GLinks(g1, g2) /
-		((double)g1->size * (double)(g1->size - 1));
+		((double)g1->size * (double)(g1->size - 1) / 2.0);
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
 		((double)g1->size * (double)g2->size);
-- 
2.43.0


From 311fe957f274603bb6bcec8ae252c55fb8234ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 59/62] fix: the block model halved the expected fraction of
 links between two groups

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index f68416a..8e3aabb 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -796,7 +796,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
 		(double)(g1->inlinks + g1->totlinks) *
 		(double)(g2->inlinks + g2->totlinks) /
-		(4.0 * (double)links * (double)links);
+		(2.0 * (double)links * (double)links);
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-- 
2.43.0


From 497362d33808767704251fd1699a3f875e7c2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 60/62] fix: the bipartite modularity overflowed for large
 degrees

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 4648668..9fa238f 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -858,7 +858,7 @@ ModularityBipart(struct binet *binet, struct group *part)
   /* Calculate sms=sum(m_s) and sms2=sum(m_s^2) */
   while ((p = p->next) != NULL) {
     sms += (double)NodeDegree(p);
-    sms2 += (double)(NodeDegree(p) * NodeDegree(p));
+    sms2 += (double)NodeDegree(p) * (double)NodeDegree(p);
   }
   s2ms = sms * sms;
 
@@ -872,7 +872,7 @@ ModularityBipart(struct binet *binet, struct group *part)
         t1 = NodeDegree(n1->ref);
         t2 = NodeDegree(n2->ref);
 
-	      bimod += (double)c12 / (sms2 - sms) - (double)(t1 * t2) / s2ms;
+	      bimod += (double)c12 / (sms2 - sms) - (double)t1 * (double)t2 / s2ms;
       }
     }
   }
-- 
2.43.0


From 578878a468ed7836635872d6f6dbea2e59c0c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 61/62] fix: removing a large network overflowed the stack

---
 src/graph.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 78cd009..355f872 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -396,16 +396,19 @@ FreeNodeLis(struct node_lis *p)
 }
 
 // ---------------------------------------------------------------------
-// Recursively removes all the adjacencies in the adjacency list that
-// hangs from p and frees the memory
+// Removes all the adjacencies in the adjacency list that hangs from p
+// and frees the memory
 // ---------------------------------------------------------------------
 void
 FreeAdjacencyList(struct node_lis *p)
 {
-  if (p->next != NULL) {
-    FreeAdjacencyList(p->next);
+  struct node_lis *next;
+
+  while (p != NULL) {
+    next = p->next;
+    FreeNodeLis(p);
+    p = next;
   }
-  FreeNodeLis(p);
 }
 
 // ---------------------------------------------------------------------
@@ -424,15 +427,18 @@ FreeNode(struct node_gra *node)
 }
 
 // ---------------------------------------------------------------------
-// Recursively removes all the nodes in a network and frees the memory
+// Removes all the nodes in a network and frees the memory
 // ---------------------------------------------------------------------
 void
 RemoveGraph(struct node_gra *p)
 {
-  if (p->next != NULL) {
-    RemoveGraph(p->next);
+  struct node_gra *next;
+
+  while (p != NULL) {
+    next = p->next;
+    FreeNode(p);
+    p = next;
   }
-  FreeNode(p);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 18031609e9b1b57b2bcf12cedaeab232097ba8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 62/62] fix: removing a partition with many groups overflowed
 the stack

---
 src/modules.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 8e3aabb..cb3925d 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -301,16 +301,20 @@ CreatePartitionFromInGroup(struct node_gra *net)
 void
 RemovePartition(struct group *part)
 {
-  if (part->next != NULL)
-    RemovePartition(part->next);
+  struct group *next;
 
-  if (part->nodeList != NULL)
-    FreeAdjacencyList(part->nodeList);
+  while (part != NULL) {
+    next = part->next;
 
-  if (part->offspr != NULL)
-    RemovePartition(part->offspr);
+    if (part->nodeList != NULL)
+      FreeAdjacencyList(part->nodeList);
 
-  free(part);
+    if (part->offspr != NULL)
+      RemovePartition(part->offspr);
+
+    free(part);
+    part = next;
+  }
 }
 
 
-- 
2.43.0


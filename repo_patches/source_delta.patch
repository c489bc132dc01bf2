From b3c62a2a0d98d972dbcdfd19f5059db1b3e99ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:04 +0000
Subject: [PATCH 01/92] fix: reject over-long labels in FBuildNetwork instead
 of overflowing, and free memory on error

---
 src/graph.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..7b817ce 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -543,7 +543,7 @@ FBuildNetwork(FILE *inFile,
   void *node_dict=NULL;
   struct node_tree *n_tree=NULL, *ntree1=NULL, *ntree2=NULL;
   double weight;
-  int noReadItems;
+  int noReadItems, end1, end2;
   char *line = NULL;
   size_t bufsiz = 0;
   ssize_t nbytes;
@@ -554,21 +554,28 @@ FBuildNetwork(FILE *inFile,
   // Go through the input file
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
     /* Read the labels (and weight, if necessary) */
+    end1 = end2 = 0;
     if (weight_sw == 0) {
-      noReadItems = sscanf(line, "%s %s", label1, label2);
+      noReadItems = sscanf(line, "%99s%n %99s%n", label1, &end1, label2, &end2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
-		return NULL;
+		goto error;
 	  }
 	  weight = 1;
     }
     else {
-      noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
+      noReadItems = sscanf(line,"%99s%n %99s%n %lf", label1, &end1, label2, &end2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
-		return NULL;
+		goto error;
 	  }
     }
+    if (strchr(" \t\n\v\f\r", line[end1]) == NULL ||
+	strchr(" \t\n\v\f\r", line[end2]) == NULL) {
+      printf ("Failed to read input: label too long in line %s (max %d).\n",
+	      line, MAX_LABEL_LENGTH - 1);
+      goto error;
+    }
    
     // Check if the nodes already exist, and create them otherwise
     n_tree = CreateNodeTree();
@@ -608,6 +615,12 @@ FBuildNetwork(FILE *inFile,
   free(line);
   FreeLabelDict(node_dict);
   return root;
+
+ error:
+  free(line);
+  FreeLabelDict(node_dict);
+  RemoveGraph(root);
+  return NULL;
 }
 
 
-- 
2.43.0


From dd5e20958d2b91992cb3efa6211054a388ebc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 02/92] fix: IsThereNode must compare label contents, not
 pointers

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7b817ce..16cead5 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -805,7 +805,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From ddea216b894a7ac6e2073f4e5486ef1a141e7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 03/92] fix: AverageSquaredDegree truncated the average to an
 integer

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 16cead5..923a241 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1446,7 +1446,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From fb598844cad0f8dc81d2dae5e2cd476abae08754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 04/92] fix: AddRandomLinks ignored symmetric_sw and always
 added both directions

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 923a241..ddecad8 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1011,7 +1011,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From 74e50a89a6518bf4dd7e2cb9fb3a13ae7e09e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:35 +0000
Subject: [PATCH 05/92] fix: RemoveIsolatedNodes leaked the label and adjacency
 header of each node

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index ddecad8..8d32ee4 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -865,7 +865,7 @@ RemoveIsolatedNodes(struct node_gra *root)
     if (NodeDegree(p->next) ==  0) {
       temp = p->next;
       p->next = (p->next)->next;
-      free(temp);
+      FreeNode(temp);
       nrem++;
     }
     else{
-- 
2.43.0


From f1105b1b91bd55201d662a0e1842f829fad76be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 06/92] fix: GetAllConnectedSets read before its array and
 dropped links inside the components

---
 src/graph.c | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 8d32ee4..320924e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2854,29 +2854,6 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
   return giant;
 }
 
-//Function to remove those links that go to other components
-////It is necessary for the next function
-void ClearAdjacencies(struct node_gra *p,int *net)
-{
-  struct node_lis *nei,*temp;
-
-  while(p->next!=NULL){
-    p=p->next;
-    nei=p->neig;
-    while(nei->next!=NULL){
-      if(net[(nei->next)->node]==0){
-        temp=nei->next;
-        if(temp->next==NULL)  nei->next=NULL;
-        else  nei->next=temp->next;
-        free(temp);
-      }else{
-        nei=nei->next;
-      }
-    }
-  }
-}
-
-
 // Returns the number of connected components found. 
 // net_list must have been initialized, eg. struct node_gra *llista[1000];
 int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
@@ -2964,7 +2941,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From e7c574246f646945fb82902e0bf134bd25e3e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:34 +0000
Subject: [PATCH 07/92] fix: GetAllConnectedSets overflowed with more than
 10001 nodes and leaked its work arrays

---
 src/graph.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 320924e..25a598c 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2873,12 +2873,12 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
 
-  selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-  thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
+  numNodes=CountNodes(network);
+  selected=allocate_i_vec(numNodes);
+  thisNet=allocate_i_vec(numNodes);
 
-  for(i=0;i<MAX_SIZE_NET;i++)
+  for(i=0;i<numNodes;i++)
     selected[i]=0;
 
   network_cop=CopyNetwork(network);
@@ -2886,7 +2886,6 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   res1=0;
   size=&res1;
 
-  numNodes=CountNodes(network);
   //printf("Network has %i nodes\nDetecting connected components\n",numNodes);
   list=CreateHeaderList();
 
@@ -2900,7 +2899,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
     selected[p->num]=1;
 
 
-    for(i=0;i<MAX_SIZE_NET;i++)
+    for(i=0;i<numNodes;i++)
       thisNet[i]=0;
     d=0;
 
@@ -2952,6 +2951,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   }while(anod<numNodes);
 
   free(list);
+  free_i_vec(selected);
+  free_i_vec(thisNet);
   RemoveGraph(network_cop);
 
   return numComponents;
-- 
2.43.0


From 8707609dd9150f4895395679bc7fd90d66dd8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:08 +0000
Subject: [PATCH 08/92] fix: GetLargestWeaklyConnectedSet missed or repeated
 nodes of directed components

---
 src/graph.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 25a598c..8294f00 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2731,6 +2731,7 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
   int size_ant;
   int d;
   int maxS = 0;
+  int grown;
   struct node_gra *giant = NULL;
 
   selected = allocate_i_vec(nnod);
@@ -2784,7 +2785,11 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       d++;
     }while(*size != size_ant);
 
-    // Nodes that enable one to reach any node reachable from p
+    // Nodes that enable one to reach any node reachable from p; a node
+    // added late may make an earlier one eligible, so iterate until no
+    // more nodes are added
+    do{
+    grown = 0;
     p3 = p;
 
     while (p3->next != NULL){
@@ -2799,6 +2804,7 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	this_net[temp->num] = 1;
 	selected[temp->num] = 1;
 	anod++;
+	grown = 1;
 	
 	Enqueue(p3,list,list,size,d);
 
@@ -2820,6 +2826,7 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 
       }
     }
+    }while(grown != 0);
 
     // Rewire the cluster
     CleanAdjacencies(root_loc);
-- 
2.43.0


From 85b8ea7d1366d86c1727f9ecc4e15e71c818345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:08 +0000
Subject: [PATCH 09/92] fix: largest-component functions leaked their work
 memory on early return

---
 src/graph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 8294f00..3ed7127 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2695,6 +2695,9 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
       if (maxS > nnod/2 || maxS > thres) {
 	ClearList(list, size);
 	RemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
@@ -2842,7 +2845,10 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       giant = root_loc;
       if(maxS>nnod/2 || maxS>thres ){
 	ClearList(list,size);
-/* 	RemoveGraph(root_cop); */
+	RemoveGraph(root_cop);
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
-- 
2.43.0


From 27051693715bfc541ec0db1ac54e5953a5e23aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 10/92] fix: distance histograms overflowed when a path is
 longer than 10000 links

---
 src/graph.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 3ed7127..641faec 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1497,7 +1497,7 @@ NodeStrength(struct node_gra *node)
 void
 FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p = root;
   struct node_bfs *list, *lp;
@@ -1506,9 +1506,13 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   max_dis_pairs = allocate_i_mat(CountNodes(root), 2);
 
+  // distances are at most the number of nodes minus one
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0; i<nodes + 2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1542,7 +1546,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   // Output the histogram
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i<nodes; i++){
     if(histogram[i] != 0.0){
       fprintf(file,"%d %lf\n",i,histogram[i]/(double)(nodes-1));
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1554,6 +1558,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
   fprintf(file,"#z = %lf\n",histogram[1]);
 
   free_i_mat(max_dis_pairs, CountNodes(root));
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1566,15 +1571,19 @@ FPrintDistanceHistogramFromNode(FILE *file,
 				struct node_gra *root,
 				int orinode)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
   double av_dis,norm;
 
+  // distances are at most the number of nodes minus one
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0; i<nodes + 2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1609,7 +1618,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i<nodes; i++){
     if(histogram[i] != 0.0){
 /*       fprintf(file,"%d %lf\n",i,histogram[i]); */
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1620,6 +1629,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 /*   fprintf(file,"#Normalization = %lf\n",norm); */
   fprintf(file,"#z = %lf\n",histogram[1]);
 
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1629,15 +1639,19 @@ FPrintDistanceHistogramFromNode(FILE *file,
 double
 AveragePathLength(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p=root;
   struct node_bfs *list,*lp;
   double av_dis,norm;
 
+  // distances are at most the number of nodes minus one
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0; i<nodes + 2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1668,6 +1682,7 @@ AveragePathLength(struct node_gra *root)
     if(*size != nodes){
       printf("Sorry, the network is not connected!\n");
       ClearList(list,size);
+      free_d_vec(histogram);
       free(list);
       return -1;
     }
@@ -1676,12 +1691,13 @@ AveragePathLength(struct node_gra *root)
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0; i<nodes; i++){
     if(histogram[i] != 0.0){
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
@@ -1694,15 +1710,19 @@ AveragePathLength(struct node_gra *root)
 double
 AverageInverseDistance(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
   double av_dis,norm;
 
+  // distances are at most the number of nodes minus one
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+
   list = CreateHeaderList();
 
-  for(i = 0; i<10000; i++)
+  for(i = 0; i<nodes + 2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1735,12 +1755,13 @@ AverageInverseDistance(struct node_gra *root)
 
   // Calculate the average inverse distance
   av_dis = norm = 0.0;
-  for(i = 0; i<10000; i++){
+  for(i = 0; i<nodes; i++){
     if(histogram[i] !=  0.0){
       av_dis +=  histogram[i]/(double)( i * (nodes-1) );
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
-- 
2.43.0


From 136b020a6a65d954ddf321590bade4e896a1ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:47 +0000
Subject: [PATCH 11/92] fix: CalculateNodeBetweenness overflowed when counting
 shortest paths

---
 src/graph.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 641faec..b1b7095 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2286,8 +2286,8 @@ CalculateNodeBetweenness(struct node_gra *net)
   struct stack *S;
   struct queue *Q;
   struct queue **P;
-  int *sigma, *d;
-  double *delta;
+  int *d;
+  double *sigma, *delta;
   int nnod = CountNodes(net);
   int i;
 
@@ -2301,17 +2301,17 @@ CalculateNodeBetweenness(struct node_gra *net)
   while ((s = s->next) != NULL) {
     S = stack_create();
     P = (struct queue **)calloc(nnod, sizeof(struct queue *));
-    sigma = allocate_i_vec(nnod);
+    sigma = allocate_d_vec(nnod);
     d = allocate_i_vec(nnod);
     delta = allocate_d_vec(nnod);
     Q = queue_create();
     for (i=0; i<nnod; i++) {
       P[i] = queue_create();
-      sigma[i] = 0;
+      sigma[i] = 0.0;
       d[i] = -1;
       delta[i] = 0.0;
     }
-    sigma[s->num] = 1;
+    sigma[s->num] = 1.0;
     d[s->num] = 0;
     queue_enqueue(Q, (void *)s);
     while (!queue_empty(Q)) {
@@ -2350,7 +2350,7 @@ CalculateNodeBetweenness(struct node_gra *net)
       queue_free(P[i]);
     }
     free(P);
-    free_i_vec(sigma);
+    free_d_vec(sigma);
     free_i_vec(d);
     free_d_vec(delta);
     queue_free(Q);
-- 
2.43.0


From f52e277bad7f6d58c258bfbd2d97ba1c547a2f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:31 +0000
Subject: [PATCH 12/92] fix: PAGraph could pick the new node itself and leave
 it with fewer than m links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 418fddd4111970c6a7511f083038ebd452d683aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 13/92] fix: modularbipart ignored the requested team size

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From 46018d1ea6f15c40479329de6b52a3607f5aba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 14/92] fix: participation of a two-mode node without
 co-members was 0/0

---
 src/bipartite.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..c0e60bc 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -1049,11 +1049,13 @@ ParticipationCoefficientBipart(struct node_gra *node)
   }
 
   /* Compute the participation coefficient */
-  for (i=0; i<=maxNum; i++)
-    P +=
-      (double)inGroupCount[i] * (double)inGroupCount[i] /
-      ((double)norm * (double)norm);
-  P = 1.0 - P;
+  if (norm != 0) {
+    for (i=0; i<=maxNum; i++)
+      P +=
+	(double)inGroupCount[i] * (double)inGroupCount[i] /
+	((double)norm * (double)norm);
+    P = 1.0 - P;
+  }
 
   /* Free memory */
   free_i_vec(inGroupCount);
-- 
2.43.0


From 3b33171ae93ab55ae9f4f6bcb413d263566f4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 15/92] fix: ProjectBipartWeighted truncated weights to
 integers

---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index c0e60bc..c40fac6 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,14 +631,14 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+      weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
 	AddAdjacency(GetNodeDict(p2->label, dict),
 		     GetNodeDict(p1->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
       }
     }
   }
-- 
2.43.0


From 838f6883d3945cbb65ff8761b37376d8b2ffc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 16/92] fix: FPrintTabNodesBipart ignored its output file

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index c40fac6..cf5b30a 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -994,7 +994,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From 165099d10fbe790fbcea4bb4e3e45b09de291633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:15 +0000
Subject: [PATCH 17/92] fix: reject over-long labels in FBuildNetworkBipart
 instead of overflowing, and free memory on error

---
 src/bipartite.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index cf5b30a..543cdd7 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -61,7 +61,7 @@ FBuildNetworkBipart(FILE *inFile,
   struct binet *net=NULL;
   double weight;
   struct node_tree *nodeTree=NULL, *ntree1=NULL, *ntree2=NULL;
-  int noReadItems = 0;
+  int noReadItems = 0, end1, end2;
   char *line = NULL;
   size_t bufsiz = 0;
   ssize_t nbytes;
@@ -73,20 +73,27 @@ FBuildNetworkBipart(FILE *inFile,
   
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
     /* Read the labels (and weight, if necessary) */
+    end1 = end2 = 0;
     if (weight_sw == 0) {
-      noReadItems = sscanf(line, "%s %s", label1, label2);
+      noReadItems = sscanf(line, "%99s%n %99s%n", label1, &end1, label2, &end2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
-		return NULL;}
+		goto error;}
 	  weight = 1;
     }
     else {
-      noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
+      noReadItems = sscanf(line,"%99s%n %99s%n %lf", label1, &end1, label2, &end2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
-		return NULL;
+		goto error;
 	  }
     }
+    if (strchr(" \t\n\v\f\r", line[end1]) == NULL ||
+	strchr(" \t\n\v\f\r", line[end2]) == NULL) {
+      printf ("Failed to read input: label too long in line %s (max %d).\n",
+	      line, MAX_LABEL_LENGTH - 1);
+      goto error;
+    }
 
     /* Check if the nodes already exist, and create them otherwise */
     nodeTree = CreateNodeTree();
@@ -126,6 +133,14 @@ FBuildNetworkBipart(FILE *inFile,
   net->net1 = root1;
   net->net2 = root2;
   return net;
+
+ error:
+  free(line);
+  FreeLabelDict(dict1);
+  FreeLabelDict(dict2);
+  RemoveGraph(root1);
+  RemoveGraph(root2);
+  return NULL;
 }
 
 /*
-- 
2.43.0


From c586e0191c9e8f5a75e988076792568eefe423bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 18/92] fix: link randomization never returned when no pair of
 links can be switched

---
 src/bipartite.c | 27 +++++++++++++++++++++++++++
 src/graph.c     | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index 543cdd7..0191505 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -664,6 +664,29 @@ ProjectBipartWeighted(struct binet *binet)
 }
 
 
+/*
+  ---------------------------------------------------------------------
+  Returns 1 if there is at least one pair of links that can be
+  switched when randomizing a bipartite network, and 0 otherwise. (A
+  switch can always be undone by another one, so the answer does not
+  change while the network is being randomized.)
+  ---------------------------------------------------------------------
+*/
+static int
+IsThereSwitchBipart(struct node_gra **ori, struct node_gra **des, int nlink)
+{
+  int i, j;
+
+  for (i=0; i<nlink; i++)
+    for (j=0; j<i; j++)
+      if (ori[i] != ori[j] && des[i] != des[j] &&
+	  IsThereLink(ori[i], des[j]) == 0 &&
+	  IsThereLink(ori[j], des[i]) == 0)
+	return 1;
+
+  return 0;
+}
+
 /*
   ---------------------------------------------------------------------
   Randomize links in a bipartite network
@@ -699,6 +722,10 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
   if (coun !=  nlink)
     fprintf(stderr, "Error in RandomizeBipart: coun !=  nlink!!\n");
 
+  /* Nothing to do if no links can be switched */
+  if (IsThereSwitchBipart(ori, des, coun) == 0)
+    niter = 0;
+
   /* Randomize the network */
   for (i=0; i<niter; i++) {
     
diff --git a/src/graph.c b/src/graph.c
index b1b7095..ed27cb2 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1292,6 +1292,35 @@ RenumberNodes(struct node_gra *net)
 // ---------------------------------------------------------------------
 // ---------------------------------------------------------------------
 
+/*
+  ---------------------------------------------------------------------
+  Returns 1 if there is at least one pair of links that can be
+  switched when randomizing a network, and 0 otherwise. (A switch can
+  always be undone by another one, so the answer does not change while
+  the network is being randomized.)
+  ---------------------------------------------------------------------
+*/
+static int
+IsThereSwitch(struct node_gra **ori, struct node_gra **des, int nlink)
+{
+  int i, j;
+
+  for (i=0; i<nlink; i++) {
+    for (j=0; j<i; j++) {
+      if (ori[i] == ori[j] || ori[i] == des[j] ||
+	  des[i] == ori[j] || des[i] == des[j])
+	continue;
+      if ((IsThereLinkSoft(ori[i], des[j]->num) == 0 &&
+	   IsThereLinkSoft(des[i], ori[j]->num) == 0) ||
+	  (IsThereLinkSoft(ori[i], ori[j]->num) == 0 &&
+	   IsThereLinkSoft(des[i], des[j]->num) == 0))
+	return 1;
+    }
+  }
+
+  return 0;
+}
+
 /*
   ---------------------------------------------------------------------
   Randomize the links of a network using the Markov chain switching
@@ -1332,6 +1361,10 @@ RandomizeSymmetricNetwork(struct node_gra *net,
   if(coun !=  nlink)
     fprintf(stderr, "Error in RandomizeNetwork: coun != nlink!!\n");
 
+  /* Nothing to do if no links can be switched */
+  if (IsThereSwitch(ori, des, coun) == 0)
+    niter = 0;
+
   /* Randomize the links */
   for (i=0; i<niter; i++) {
     /* select the 4 nodes */
-- 
2.43.0


From bb32213757b74839038020f60f69992daefe73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 19/92] fix: edge-list projection used an uninitialised sum and
 read past its arrays

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..e7a715e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -155,7 +155,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -164,7 +164,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -182,7 +182,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -206,7 +206,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -231,7 +231,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 1463375dad82d299a05c610f1ec79ffe787223c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:12 +0000
Subject: [PATCH 20/92] fix: partitions with more modules than nodes, or only
 empty modules, overflowed

---
 src/partition.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..599e513 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -53,7 +53,7 @@ CreatePartition(unsigned int N, unsigned int M){
   part->M = M;
   part->nempty = M;
   part->nodes = (Node **) malloc(N*sizeof(Node*));
-  part->modules = (Module **) malloc(N*sizeof(Module*));
+  part->modules = (Module **) malloc(M*sizeof(Module*));
   if (part->nodes==NULL || part->modules == NULL)
 	perror("Error while allocating partition component");
 
@@ -323,7 +323,7 @@ CompressPartition(Partition *part){
   // that were not freed (!=NULL) to one of the empty ids in the
   // begining of the list.
   j = 0;
-  for (i=(part->M)-1;i>=M;i--){
+  for (i=part->M;i-->M;){
 	if (part->modules[i]!=NULL) {
 	  for(node=part->modules[i]->first; node!=NULL; node = node->next){
 		node->module = empty_id[j];
-- 
2.43.0


From 9bee200f27a0ec84bd5c1e20698f90717f12d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:12 +0000
Subject: [PATCH 21/92] fix: PartitionRolesMetrics added to whatever the
 participation array contained

---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index 599e513..a9e94f2 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -221,6 +221,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //it is not correct for bipartite network thanks to the
 	  //-epsilon.
 	  double strength = 0;
+	  participation[i] = 0;
 	  for (j=0;j<M;j++){
 		strength += strengthToModule[i+N*j];
 		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
-- 
2.43.0


From 245895603cfb72484fbbe746381bd211a33774ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:13 +0000
Subject: [PATCH 22/92] fix: SplitModuleByComponent joined components of the
 module through nodes outside it

---
 src/movements.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..05ff3ef 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,8 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  // Stay in the subgraph induced by the module.
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From dd0a268c81b965ff0884ac4fe1580021b01007cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:48 +0000
Subject: [PATCH 23/92] fix: GeneralSA could return NULL or miss the best
 partition, and looped for ever when no move exists

---
 src/sannealing.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..20e960d 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -49,9 +49,15 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int individual_movements, collective_movements;
   unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err;
   double T = Ti;
-  unsigned int nochange_count=0;
+  unsigned int nochange_count=0, improved;
+
+  double dE=0.0, E=0.0, previousE=0.0, best_E=0.0;
+  // With less than two modules there is nothing to optimize.
+  if (part->M < 2 || part->N == 0) return(0);
+
+  // The best partition so far is the initial one.
+  best_part = CopyPartitionStruct(part);
 
-  double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
   info ("#Simulated annealing:\n");
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
@@ -117,7 +123,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  }// End unless all nodes are together (End of merge).
 
 	   //// SPLITS ////
-	  if (part->nempty) { //unless there is no empty groups.
+	  if (part->nempty && part->M - part->nempty < part->N) { //unless there is no empty group, or no group to split.
 		// Select the first empty group;
 		for (j=0;j<part->M;j++){
 		  if(!part->modules[j]->size){
@@ -187,6 +193,16 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  } // End of unless there is no empty group (=End of split).
 	} //End of collective movements
 
+	// Compare the current partition to the best partition so far and
+	// update it if needed.
+	improved = (E > best_E);
+	if (improved) {
+	  info ("# Saving a new best partition (%e)\n",E);
+	  FreePartition(best_part);
+	  best_part = CopyPartitionStruct(part);
+	  best_E = E;
+	}
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
@@ -207,16 +223,9 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 		  part = CopyPartitionStruct(best_part);
 		}
 	  }
-	// Compare the current partition to the best partition so far and
-	// update it if needed.
-	else if ( E > best_E) {
-	  info ("# Saving a new best partition (%e)\n",E);
-	  if (best_part!=NULL)
-		FreePartition(best_part);
-	  best_part = CopyPartitionStruct(part);
-	  best_E = E;
+	else if (improved)
 	  nochange_count = 0;
-	}
+
    	// update the previous energy level.
 	previousE = E;
 
-- 
2.43.0


From 53bdad36e5f0858ca34eaa297ea23d09298b1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 24/92] fix: reading a partition overflowed on long labels and
 never ended without a final separator

---
 src/modules.c | 66 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..3ab4dbd 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -111,27 +111,32 @@ module, with the names of the nodes separated by tabulations.
  **/
 struct group*
 FReadPartition(FILE *inF){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int noReadItems = 0;
+  char *line = NULL, *label;
+  size_t bufsiz = 0;
 
   struct group *g = NULL;
   struct group *part = NULL;
-  int npart = 0, nfields = 0;
+  int npart = 0;
 
   part = CreateHeaderGroup();
-  g = CreateGroup(part, npart);
-
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
-	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
-		g = CreateGroup(part, npart);
-	  }
-	}
+
+  /* One module per non-empty line */
+  while (getline(&line, &bufsiz, inF) != -1) {
+    g = NULL;
+    for (label=strtok(line, "\t\r\n"); label!=NULL; label=strtok(NULL, "\t\r\n")) {
+      if (strlen(label) >= MAX_LABEL_LENGTH) {
+	printf ("Failed to read input: label too long (max %d).\n",
+		MAX_LABEL_LENGTH - 1);
+	free(line);
+	RemovePartition(part);
+	return NULL;
+      }
+      if (g == NULL)
+	g = CreateGroup(part, npart++);
+      AddNodeToGroupSoft(g, label);
+    }
   }
+  free(line);
   return(part);
 }
 
@@ -143,31 +148,32 @@ FReadPartition(FILE *inF){
 struct group *
 FCreatePartition(FILE *inF)
 {
-  char label[MAX_LABEL_LENGTH];
+  char label[MAX_LABEL_LENGTH + 1];
   char *separator = "///";
   struct group *g = NULL;
   struct group *part = NULL;
   int npart = 0;
-  int noReadItems;
 
   /* Create the header of the partition */
   part = CreateHeaderGroup();
 
   /* Read the file */
-  while (!feof(inF)) {
-    g = CreateGroup(part, npart);
-    npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
-	if (noReadItems != 1)
-	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
-
-    while (strcmp(label, separator) != 0) {
-      AddNodeToGroupSoft(g, label);
-      noReadItems = fscanf(inF, "%s\n", &label[0]);
-	  if (noReadItems != 1)
-		printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
-
+  while (fscanf(inF, "%100s", &label[0]) == 1) {
+    if (strlen(label) >= MAX_LABEL_LENGTH) {
+      printf ("Failed to read input: label too long (max %d).\n",
+	      MAX_LABEL_LENGTH - 1);
+      RemovePartition(part);
+      return NULL;
     }
+
+    /* The first label after a separator starts a new group */
+    if (g == NULL)
+      g = CreateGroup(part, npart++);
+
+    if (strcmp(label, separator) != 0)
+      AddNodeToGroupSoft(g, label);
+    else
+      g = NULL;
   }
 
   return part;
-- 
2.43.0


From 367f049a975213cbcb3f1fab666070f8264889da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 25/92] fix: CreatePartitionFromInGroup read before its array
 when a node has no group

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 3ab4dbd..a95779d 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -277,6 +277,8 @@ CreatePartitionFromInGroup(struct node_gra *net)
   /* Assign the nodes creating new groups when necessary */
   p = net;
   while ((p = p->next) != NULL) {
+    if (p->inGroup < 0)	/* The node does not belong to any group */
+      continue;
     if (glist[p->inGroup] == NULL) {
       glist[p->inGroup] = CreateGroup(part, p->inGroup);
     }
-- 
2.43.0


From 9a17bcd4fd3f949d5d02478f2c385d4025fd748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 26/92] fix: nodes removed from a group were still counted as
 its members

---
 src/modules.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index a95779d..bc76bad 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -488,6 +488,10 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* The node does not belong to the group any more */
+    if (node->inGroup == g->label)
+      node->inGroup = -1;
+
     /* Done */
     return 1;
   }
@@ -524,6 +528,10 @@ RemoveNodeFromGroupFast(struct group *g, struct node_gra *node)
     /* Partially update the properties of the group */
     g->size--;
 
+    /* The node does not belong to the group any more */
+    if (node->inGroup == g->label)
+      node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From 7e15213986404da53c2ba1f0052a44ab6106f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 27/92] fix: removing links within or between groups went on
 through freed links

---
 src/modules.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index bc76bad..6a70945 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -688,13 +688,11 @@ void
 RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
 {
   struct node_lis *nod;
-  struct node_lis *nei;
 
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
-    nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nod->ref->neig->next != NULL)
+      RemoveLink(nod->ref, nod->ref->neig->next->ref, symmetric_sw);
   }
 
   return;
@@ -710,13 +708,13 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
 {
   struct group *g = part;
   struct node_lis *nod;
-  struct node_lis *nei;
+  struct node_lis *nei, *nextnei;
 
   while ((g = g->next) != NULL) {
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
-      nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
+      for (nei = nod->ref->neig->next; nei != NULL; nei = nextnei) {
+	nextnei = nei->next;
 	if (nod->ref->inGroup != nei->ref->inGroup)
 	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
       }
@@ -1514,13 +1512,13 @@ void
 RemoveInterGroupLinks(struct node_gra *net)
 {
   struct node_gra *p = net;
-  struct node_lis *n;
+  struct node_lis *n, *nextn;
   int thisgroup;
 
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
-    n = p->neig;
-    while ((n = n->next) != NULL) {
+    for (n = p->neig->next; n != NULL; n = nextn) {
+      nextn = n->next;
       if(n->ref->inGroup != thisgroup)
 	RemoveLink(p, n->ref, 0);
     }
-- 
2.43.0


From 567470092213bd8bbbb8d0e8d08d48d09426a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 28/92] fix: BuildNetFromGroupNeig rewired links by the node
 numbers of the original network

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 6a70945..5660424 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1148,7 +1148,7 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
 
   return net;
 }
-- 
2.43.0


From 0b22c2b7f2cd469dc144de8eb029b1ac64bc72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 29/92] fix: MapPartToNetSoft crashed on subset networks,
 changed the partition and leaked its dictionary

---
 src/modules.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 5660424..dda2791 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1393,7 +1393,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1402,30 +1401,22 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups and set the group of the nodes */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
-      /* Update the properties of the node */
-      node->inGroup = g->label;
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+      /* Update the properties of the node, if it is in the network */
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From 59fc6e83a7fcb548dcb891550447e51d6a0d5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 30/92] fix: BlockModel printed half the connection probability
 within a group

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index dda2791..5e5f47f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -784,7 +784,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-- 
2.43.0


From c9d192b8e93eda02bc34dd4e634731a294d189d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 31/92] fix: mutual information was 0/0 for single-group
 partitions and overflowed for large ones

---
 src/modules.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 5e5f47f..6b22bbb 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1667,8 +1667,8 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
 	    }
 	  } /* Overlap size S12 has been calculated */
 	  if (S12 > 0)
-	    H12 += (double)S12 * log((double)(S12 * S) /
-				 (double)(S1 * S2));
+	    H12 += (double)S12 * log((double)S12 * (double)S /
+				 ((double)S1 * (double)S2));
 	}
       }
     }
@@ -1677,7 +1677,10 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
   /*
     Compute mutual information
   */
-  I12 = -2.0 * H12 / (H1 + H2);
+  if (H1 + H2 == 0.0)
+    I12 = 1.0;	/* Both partitions have a single group */
+  else
+    I12 = -2.0 * H12 / (H1 + H2);
 
   return I12;
 }
-- 
2.43.0


From 7475d49445583cb7c51d3d21c3f80a4083fc5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 32/92] fix: CorrectlyClassified divided by twice the number of
 nodes

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 6b22bbb..be7096f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1767,7 +1767,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 342dd07941b97bd903693c283c26fd3c8f99ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 33/92] fix: within-module z-scores could be NaN or spurious
 when all nodes of a module are alike

---
 src/modules.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index be7096f..a4a2b38 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1873,7 +1873,7 @@ ParticipationCoefficient(struct node_gra *node)
   if (nlink != 0) {
     while ((nei = nei->next) != NULL) {
       toGroup = NLinksToGroupByNum(node, nei->ref->inGroup);
-      P += (double)toGroup / (double)(nlink * nlink);
+      P += (double)toGroup / ((double)nlink * (double)nlink);
     }
     P = 1.0 - P;
   }
@@ -1932,7 +1932,7 @@ WithinModuleRelativeDegree(struct node_gra *node, struct group *part)
   struct group *group=NULL;
 
   int inDegree;
-  double kmean = 0.0, k2mean = 0.0, kstd;
+  double kmean = 0.0, kvar = 0.0, kstd;
 
   /* Find the group of the node */
   group = part;
@@ -1945,11 +1945,19 @@ WithinModuleRelativeDegree(struct node_gra *node, struct group *part)
   while ((p = p->next) != NULL) {
     inDegree = NLinksToGroup(p->ref, group);
     kmean += (double)inDegree;
-    k2mean += (double)inDegree * (double)inDegree;
   }
   kmean /= (double)(group->size);
-  k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  p = group->nodeList;
+  while ((p = p->next) != NULL) {
+    inDegree = NLinksToGroup(p->ref, group);
+    kvar += ((double)inDegree - kmean) * ((double)inDegree - kmean);
+  }
+  kvar /= (double)(group->size);
+
+  /* Differences that are only rounding errors are no spread at all */
+  if (kvar <= 1e-24 * kmean * kmean)
+    kvar = 0.0;
+  kstd = sqrt(kvar);
 
   /* Calculate the z-score */
   if (kstd == 0.0)
@@ -1976,7 +1984,7 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   struct group *group=NULL;
 
   double inStrength;
-  double kmean = 0.0, k2mean = 0.0, kstd = 0.0;
+  double kmean = 0.0, kvar = 0.0, kstd = 0.0;
 
   // Find the group of the node
   group = part;
@@ -1989,11 +1997,19 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   while ((p = p->next) != NULL) {
     inStrength = StrengthToGroup(p->ref, group);
     kmean += (double)inStrength;
-    k2mean += (double)inStrength * (double)inStrength;
   }
   kmean /= (double)(group->size);
-  k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  p = group->nodeList;
+  while ((p = p->next) != NULL) {
+    inStrength = StrengthToGroup(p->ref, group);
+    kvar += (inStrength - kmean) * (inStrength - kmean);
+  }
+  kvar /= (double)(group->size);
+
+  // Differences that are only rounding errors are no spread at all
+  if (kvar <= 1e-24 * kmean * kmean)
+    kvar = 0.0;
+  kstd = sqrt(kvar);
 
   // Calculate the z-score
   if (kstd == 0.0)
-- 
2.43.0


From ae480a37d3c9f498d559795172366910ed158862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 34/92] fix: CreateEquiNPartition crashed when the last group
 is not nearly full

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index a4a2b38..0bc2c42 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -203,7 +203,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p != NULL && (p = p->next) != NULL) {
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From 273fcabb3be5b4b6abe846567c9f3a450ceb3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 35/92] fix: CreatePartitionFromInGroup counted the links
 inside groups twice

---
 src/modules.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 0bc2c42..9bb2642 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -282,9 +282,12 @@ CreatePartitionFromInGroup(struct node_gra *net)
     if (glist[p->inGroup] == NULL) {
       glist[p->inGroup] = CreateGroup(part, p->inGroup);
     }
-    AddNodeToGroup(glist[p->inGroup], p);
+    AddNodeToGroupFast(glist[p->inGroup], p);
   }
 
+  /* Count the links, once all the nodes are in their groups */
+  MapPartToNet(part, net);
+
   /* Free memory and return */
   free(glist);
   return part;
-- 
2.43.0


From 2967e6bc59fc7d1d2a079e85d5ab4296b7e0d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 36/92] fix: PartitionRolesMetrics gave spurious z-scores when
 strengths differ by rounding only

---
 src/partition.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index a9e94f2..1bfa85d 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -197,8 +197,13 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	mod = part->nodes[i]->module;
 	std[mod] += (strengthToModule[i+N*mod]-mean[mod]) * (strengthToModule[i+N*mod]-mean[mod]);
   }
-  for (j=0; j<M; j++)
-	std[j] = sqrt(std[j]/part->modules[j]->size);
+  for (j=0; j<M; j++){
+	std[j] = std[j]/part->modules[j]->size;
+	// Differences that are only rounding errors are no spread at all.
+	if (std[j] <= 1e-24 * mean[j] * mean[j])
+	  std[j] = 0;
+	std[j] = sqrt(std[j]);
+  }
 
   // Compute the z-score.
   for (i=0; i<N; i++){
-- 
2.43.0


From 427c1e411364810751a04a52f02b37b5f30ad21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:02 +0000
Subject: [PATCH 37/92] fix: CreateEquiNPartition counted links with the groups
 the nodes had before

---
 src/modules.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules.c b/src/modules.c
index 9bb2642..34e48ec 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -198,6 +198,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   p = net;
   part = CreateHeaderGroup();
   ngroups = CountNodes(net) / gsize;
+  ResetNetGroup(net);
 
   /* Create the groups and assign the nodes */
   for (i=0; i<=ngroups; i++) {
-- 
2.43.0


From 2b499533bf18b686477dd23fb1d354dc31dc4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 38/92] fix: ArrangeComponents started from uninitialised
 centres and leaked its displacements

---
 src/layout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..3ec8a80 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -149,6 +149,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       g = g->next;
       glist[g->label] = g;
       dxtot[g->label] = dytot[g->label] = 0.0;
+      xce[g->label] = yce[g->label] = 0.0;
 
       // Find the center of the component and of the network
       node = g->nodeList;
@@ -236,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From d5e450489c0ff80340df440198785b5169040d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 39/92] fix: normalizing coordinates that are all equal gave
 NaN

---
 src/layout.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 3ec8a80..6836b0f 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -273,8 +273,8 @@ void NormalizeCoordinates(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
+    temp->coorX = xmax > xmin ? (temp->coorX - xmin) / (xmax - xmin) : 0.5;
+    temp->coorY = ymax > ymin ? (temp->coorY - ymin) / (ymax - ymin) : 0.5;
   }
 }
 
@@ -312,9 +312,9 @@ void NormalizeCoordinates3D(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
-    temp->coorZ = (temp->coorZ - zmin) / (zmax - zmin);
+    temp->coorX = xmax > xmin ? (temp->coorX - xmin) / (xmax - xmin) : 0.5;
+    temp->coorY = ymax > ymin ? (temp->coorY - ymin) / (ymax - ymin) : 0.5;
+    temp->coorZ = zmax > zmin ? (temp->coorZ - zmin) / (zmax - zmin) : 0.5;
   }
 }
 
-- 
2.43.0


From 331ebcf9b23972bca9b4b6f6a7d983c62fe2ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 40/92] fix: assigning nodes to boxes divided by zero when all
 share a coordinate

---
 src/layout.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 6836b0f..4cad632 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -334,11 +334,15 @@ int AssignBox(struct node_gra *node, int nbox,
   ymax = ymax + (ymax - ymin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
+  normx = xmax > xmin ? (node->coorX - xmin) / (xmax - xmin) : 0.;
+  normy = ymax > ymin ? (node->coorY - ymin) / (ymax - ymin) : 0.;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
 
+  // Rounding may still take a node to the limit of the last box
+  intx = intx < nbox ? intx : nbox - 1;
+  inty = inty < nbox ? inty : nbox - 1;
+
   return inty * nbox + intx;
 }
 
@@ -756,13 +760,18 @@ int AssignBox3D(struct node_gra *node, int nbox,
   zmax = zmax + (zmax - zmin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
-  normz = (node->coorZ - zmin) / (zmax - zmin);
+  normx = xmax > xmin ? (node->coorX - xmin) / (xmax - xmin) : 0.;
+  normy = ymax > ymin ? (node->coorY - ymin) / (ymax - ymin) : 0.;
+  normz = zmax > zmin ? (node->coorZ - zmin) / (zmax - zmin) : 0.;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
   intz = floor(normz * (double)nbox);
 
+  // Rounding may still take a node to the limit of the last box
+  intx = intx < nbox ? intx : nbox - 1;
+  inty = inty < nbox ? inty : nbox - 1;
+  intz = intz < nbox ? intz : nbox - 1;
+
   return intz * nbox * nbox + inty * nbox + intx;
 }
 
-- 
2.43.0


From 0c7a76a860b4e1a2219c6b762e6ed29c1baf4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 41/92] fix: the number of layout boxes was infinite for a
 network without links

---
 src/layout.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 4cad632..503d301 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -610,6 +610,8 @@ MDGraphLayout(struct node_gra *net, double drag, double dt,
   double xmin, xmax, ymin, ymax;
 
   // Determine the number of boxes
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0)
+    nbox = 1;
   if (nbox <= 0) {
     nbox = floor(sqrt((double)(nnod*nnod) / 
 		      (10.*(double)TotalNLinks(net, 1))));
@@ -1083,6 +1085,8 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
   double xmin, xmax, ymin, ymax, zmin, zmax;
 
   // Determine the number of boxes
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0)
+    nbox = 1;
   if (nbox <= 0) {
     nbox = floor(pow((double)(nnod*nnod) / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
@@ -1255,6 +1259,8 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
   int kz_sw = 0;
 
   // Determine the number of boxes
+  if (nbox <= 0 && TotalNLinks(net, 1) == 0)
+    nbox = 1;
   if (nbox <= 0) {
     nbox = floor(pow((double)(nnod*nnod) / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
-- 
2.43.0


From 0efe985dadb2153800f45144fe965e3fb50f23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 42/92] fix: the layout force between two nodes at the same
 place was NaN

---
 src/layout.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 503d301..cba22bf 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -522,6 +522,8 @@ CalculateNodeForces(struct node_gra *net, double Fx[], double Fy[],
 	dy = n2->coorY - n1->coorY;
 	dis = sqrt( dx * dx + dy * dy );
 	Fmod = hookek * dis;
+	if (dis == 0.) // No direction and no force
+	  continue;
 	
 	Fx[n1->trans] += Fmod * dx / dis;
 	Fy[n1->trans] += Fmod * dy / dis;
@@ -568,7 +570,7 @@ CalculateNodeForces(struct node_gra *net, double Fx[], double Fy[],
 		dx = n2->coorX - n1->coorX;
 		dy = n2->coorY - n1->coorY;
 		dis = sqrt( dx * dx + dy * dy );
-		if (dis < cutoff || boxprow <= 2) {
+		if (dis > 0. && (dis < cutoff || boxprow <= 2)) {
 		  Fmod = -Ke / (dis*dis + epsilon);
 
 		  Fx[n1->trans] += Fmod * dx / pow(dis, 1.);
@@ -978,6 +980,8 @@ CalculateNodeForces3D(struct node_gra *net,
 	dz = n2->coorZ - n1->coorZ;
 	dis = sqrt( dx * dx + dy * dy + dz * dz);
 	Fmod = hookek * dis;
+	if (dis == 0.) // No direction and no force
+	  continue;
 	
 	Fx[n1->trans] += Fmod * dx / dis;
 	Fy[n1->trans] += Fmod * dy / dis;
@@ -1040,7 +1044,7 @@ CalculateNodeForces3D(struct node_gra *net,
 		  dy = n2->coorY - n1->coorY;
 		  dz = n2->coorZ - n1->coorZ;
 		  dis = sqrt( dx * dx + dy * dy + dz * dz);
-		  if (dis < cutoff || boxprow <= 2) {
+		  if (dis > 0. && (dis < cutoff || boxprow <= 2)) {
 		    Fmod = -Ke / (dis*dis + epsilon);
 
 		    Fx[n1->trans] += Fmod * dx / dis;
-- 
2.43.0


From 12feff722838b1aff5c07ba62cfac3136f6b7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 43/92] fix: PotentialEnergy3D only looked at the first layer
 of boxes

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index cba22bf..e663af6 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -850,7 +850,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From 11ae6d62c14c8a8efce80a206b86d6bf7b1a2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 44/92] fix: CountLinesInFile counted lines of 1000 or more
 characters several times

---
 src/tools.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..0c7e617 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -609,12 +609,15 @@ int
 CountLinesInFile(char *inFileName)
 {
   char line[1000];
-  int n=0;
+  int n=0, start=1;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
-    n++;
+  while (fgets(line, 1000, inFile)) {
+    if (start) // A long line comes in several pieces
+      n++;
+    start = (strchr(line, '\n') != NULL);
+  }
   fclose(inFile);
 
   return n;
-- 
2.43.0


From 50311ffc2d4b9003705fe1ba9f7fbe18bdccc275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 45/92] fix: Gibbs steps use stale or uninitialised values when
 all nodes are in one group

---
 src/missing.c        |  6 ++++++
 src/multiblock.c     | 12 ++++++++++++
 src/only_deg.c       |  6 ++++++
 src/sparse_missing.c |  6 ++++++
 4 files changed, 30 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..53be95e 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2052,6 +2052,12 @@ GibbsLinkScoreStep(double *H,
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
     norm = 0.0;
+    /* Needed for the move to an empty group even if there is no other
+       destination group in the shortlist */
+    noldg = oldg->size;
+    n2oldg = n2gList[oldgnum] = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 1;
 
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..8b15b4a 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1355,6 +1355,12 @@ GibbsLinkScoreStepMB(double *H,
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
     norm = 0.0;
+    /* Needed for the move to an empty group even if there is no other
+       destination group in the shortlist */
+    noldg = oldg->size;
+    n2oldg = n2gList[oldgnum] = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 1;
 
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
@@ -1991,6 +1997,12 @@ ORGibbsLinkScoreStepMB(double *H,
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
     norm = 0.0;
+    /* Needed for the move to an empty group even if there is no other
+       destination group in the shortlist */
+    noldg = oldg->size;
+    n2oldg = n2gList[oldgnum] = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 1;
 
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..ed238b0 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -718,6 +718,12 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
     norm = 0.0;
+    /* Needed for the move to an empty group even if there is no other
+       destination group in the shortlist */
+    noldg = oldg->size;
+    n2oldg = n2gList[oldgnum] = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 1;
 
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..c9d934a 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -122,6 +122,12 @@ SparseGibbsLinkScoreStep(double *H,
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
     norm = 0.0;
+    /* Needed for the move to an empty group even if there is no other
+       destination group in the shortlist */
+    noldg = oldg->size;
+    n2oldg = n2gList[oldgnum] = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 1;
 
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
-- 
2.43.0


From 50daecb13fc479e92258b54ae41fd8c753dcdef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 46/92] fix: Gibbs destination choice reads outside the
 shortlist for extreme random numbers

---
 src/missing.c        | 4 ++--
 src/multiblock.c     | 8 ++++----
 src/only_deg.c       | 4 ++--
 src/recommend.c      | 3 ++-
 src/sparse_missing.c | 4 ++--
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 53be95e..c9682a1 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2284,9 +2284,9 @@ GibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/multiblock.c b/src/multiblock.c
index 8b15b4a..642d183 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1602,9 +1602,9 @@ GibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
@@ -2244,9 +2244,9 @@ ORGibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/only_deg.c b/src/only_deg.c
index ed238b0..a4bea91 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -965,9 +965,9 @@ GibbsLinkScoreStepMB_OD(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..da10d3f 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -2119,8 +2119,9 @@ GibbsStepKState(int K,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice)
+      do {
 	cum += exp(-dH[slg[target++]]);
+      } while (cum < dice && target < *slgsize);
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
     }
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index c9d934a..d521143 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -308,9 +308,9 @@ SparseGibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
-- 
2.43.0


From 47d631d338aa4110f924dd53e1ca8806e3b3d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 47/92] fix: harmonic number table too short when all nodes are
 in one group

---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index 642d183..f70308e 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1757,7 +1757,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2399,7 +2399,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index a4bea91..a1d5f99 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1120,7 +1120,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 01428191daf7c01f7a6b9a1c89398c834717fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 48/92] fix: estimating the decorrelation step never ended for
 networks of less than 20 nodes

---
 src/missing.c    | 2 ++
 src/multiblock.c | 4 ++++
 src/only_deg.c   | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index c9682a1..2d18bda 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -351,6 +351,8 @@ GetDecorrelationStep(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
diff --git a/src/multiblock.c b/src/multiblock.c
index f70308e..d342e40 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -284,6 +284,8 @@ GetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -914,6 +916,8 @@ ORGetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
diff --git a/src/only_deg.c b/src/only_deg.c
index a1d5f99..6c82800 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -282,6 +282,8 @@ GetDecorrelationStepMB_OD(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
-- 
2.43.0


From 6b72fefa7faa3cb09f5a36c4ec0e373a1ebd1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 49/92] fix: a decorrelation step of 0 left the sampler frozen

---
 src/missing.c    | 6 ++++--
 src/multiblock.c | 6 ++++--
 src/only_deg.c   | 3 ++-
 src/recommend.c  | 6 ++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 2d18bda..e15aaff 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -421,7 +421,8 @@ GetDecorrelationStep(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : result; /* a step of 0 would never move */
 }
 
 /*
@@ -1628,7 +1629,8 @@ LSGetDecorrelationStepKState(int K,
   /* Clean up */
   free_d_vec(decay);
 
-  return (int)(result / norm + 0.5);
+  /* a step of 0 would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
diff --git a/src/multiblock.c b/src/multiblock.c
index d342e40..1b83786 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -355,7 +355,8 @@ GetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : result; /* a step of 0 would never move */
 }
 
 /*
@@ -987,7 +988,8 @@ ORGetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : result; /* a step of 0 would never move */
 }
 
 /*
diff --git a/src/only_deg.c b/src/only_deg.c
index 6c82800..d52d2d4 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -353,7 +353,8 @@ GetDecorrelationStepMB_OD(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  result /= norm;
+  return (result < 1.0) ? 1 : result; /* a step of 0 would never move */
 }
 
 /*
diff --git a/src/recommend.c b/src/recommend.c
index da10d3f..1b6e4c1 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -637,7 +637,8 @@ GetDecorrelationStep2State(double *H,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  /* a step of 0 would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
@@ -1475,7 +1476,8 @@ GetDecorrelationStepKState(int K,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  /* a step of 0 would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
-- 
2.43.0


From 0f6940d107069992000b090bdbd1caad6703beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 50/92] fix: NetworkScore, PartitionSampling and NetReconstruct
 leaked their tables

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index e15aaff..7169fb0 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1033,6 +1033,7 @@ NetworkScore(struct node_gra *netTar,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return scoreTar / scoreObs;
 }
@@ -1120,8 +1121,11 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
@@ -1284,6 +1288,7 @@ PartitionSampling(struct node_gra *net,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return partList;
 }
-- 
2.43.0


From f8b98b575a0623ec4819a9a9bdc804d373362611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 51/92] fix: NetReconstruct used uninitialised nodes for empty
 and complete networks

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 7169fb0..08a8a7f 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1082,6 +1082,7 @@ NetReconstruct(struct node_gra *netObs,
 	 score */
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
+      n1Add = n2Add = n1Remove = n2Remove = NULL;
       for (n1=0; n1<nnod; n1++) {
 	for (n2=n1+1; n2<nnod; n2++) {
 	  if ((linkScores[n1][n2] > maxLinkScore) &&
@@ -1099,6 +1100,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Nothing to exchange (network without links, or complete) */
+      if (n1Add == NULL || n1Remove == NULL)
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
-- 
2.43.0


From 94bb7cf7ad9edd9d0e4f07afd72a80275a01f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:34 +0000
Subject: [PATCH 52/92] fix: LinkScore used an uninitialised table of
 node-to-group links

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 08a8a7f..949ef82 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -184,6 +184,8 @@ LinkScoreMCStep(int factor,
   while ((g=g->next) != NULL)
     if (g->size > 0)
       slg[slgsize++] = g->label;
+  for (i=0; i<nnod; i++)
+    n2gList[i] = 0;  /* no links to groups that are not in the shortlist */
 
   /* Steps */
   for (move=0; move<nnod*factor; move++) {
-- 
2.43.0


From 707627f2a4d56db77d7045f072b8e8414eab0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 53/92] fix: decorrelation step was 0/0 when all estimates are
 equal up to rounding

---
 src/missing.c    | 4 ++--
 src/multiblock.c | 4 ++--
 src/only_deg.c   | 2 +-
 src/recommend.c  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 949ef82..951caf4 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -405,7 +405,7 @@ GetDecorrelationStep(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -1615,7 +1615,7 @@ LSGetDecorrelationStepKState(int K,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
diff --git a/src/multiblock.c b/src/multiblock.c
index 1b83786..55fc9ee 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -337,7 +337,7 @@ GetDecorrelationStepMB(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -970,7 +970,7 @@ ORGetDecorrelationStepMB(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
diff --git a/src/only_deg.c b/src/only_deg.c
index d52d2d4..1be1feb 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -335,7 +335,7 @@ GetDecorrelationStepMB_OD(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 1b6e4c1..899e71c 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -610,7 +610,7 @@ GetDecorrelationStep2State(double *H,
   }
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
       result -= (*decay)[rep];
       switch (verbose_sw) {
       case 'q':
@@ -1449,7 +1449,7 @@ GetDecorrelationStepKState(int K,
   }
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
+    if (sigmaDecay > 0.0 && fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
       result -= (*decay)[rep];
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From ff6ca3a9f0641e5918e7a95964c9bac5ee32e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:57 +0000
Subject: [PATCH 54/92] fix: Metropolis samplers never returned for a single
 node

---
 src/missing.c    | 4 ++--
 src/multiblock.c | 4 ++--
 src/only_deg.c   | 2 +-
 src/recommend.c  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 951caf4..13538cf 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -188,7 +188,7 @@ LinkScoreMCStep(int factor,
     n2gList[i] = 0;  /* no links to groups that are not in the shortlist */
 
   /* Steps */
-  for (move=0; move<nnod*factor; move++) {
+  for (move=0; move<nnod*factor && nnod>1; move++) {
 
     /* Choose node and destination group */
     dice = floor(gsl_rng_uniform(gen) * (double)nnod);
@@ -1388,7 +1388,7 @@ LSMCStepKState(int K,
   int k;
 
   /* The moves */
-  for (move=0; move<nnod*factor; move++) {
+  for (move=0; move<nnod*factor && nnod>1; move++) {
 
     /* The move */
     dice = floor(gsl_rng_uniform(gen) * (double)nnod);
diff --git a/src/multiblock.c b/src/multiblock.c
index 55fc9ee..48af461 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -116,7 +116,7 @@ LSMCStepMB(int factor,
   int move;
   int effectng=0;
 
-  for (move=0; move<nnod*factor; move++) {
+  for (move=0; move<nnod*factor && nnod>1; move++) {
 
     /* Choose node and destination group */
     dice = floor(gsl_rng_uniform(gen) * (double)nnod);
@@ -749,7 +749,7 @@ ORLSMCStepMB(int factor,
   int move;
   int effectng=0;
 
-  for (move=0; move<nnod*factor; move++) {
+  for (move=0; move<nnod*factor && nnod>1; move++) {
 
     /* Choose node and destination group */
     dice = floor(gsl_rng_uniform(gen) * (double)nnod);
diff --git a/src/only_deg.c b/src/only_deg.c
index 1be1feb..33786b2 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -114,7 +114,7 @@ LSMCStepMB_OD(int factor,
   int move;
   int effectng=0;
 
-  for (move=0; move<nnod*factor; move++) {
+  for (move=0; move<nnod*factor && nnod>1; move++) {
 
     /* Choose node and destination group */
     dice = floor(gsl_rng_uniform(gen) * (double)nnod);
diff --git a/src/recommend.c b/src/recommend.c
index 899e71c..0503f55 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -304,7 +304,7 @@ MCStep2State(int factor,
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
   /* The moves */
-  for (move=0; move<(nnod1+nnod2)*factor; move++) {
+  for (move=0; move<(nnod1+nnod2)*factor && (nnod1>1 || nnod2>1); move++) {
 
     /* The move */
     if (gsl_rng_uniform(gen) < set_ratio) { /* move in first set */
@@ -1148,7 +1148,7 @@ MCStepKState(int K,
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
   /* The moves */
-  for (move=0; move<(nnod1+nnod2)*factor; move++) {
+  for (move=0; move<(nnod1+nnod2)*factor && (nnod1>1 || nnod2>1); move++) {
 
     /* The move */
     if (gsl_rng_uniform(gen) < set_ratio) { /* move in first set */
-- 
2.43.0


From 50f964ed4f4484c6397f47c9da5114cade37bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:57 +0000
Subject: [PATCH 55/92] fix: the sparse sampler failed on empty and complete
 networks

---
 src/sparse_missing.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index d521143..ef9c77c 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -475,7 +475,16 @@ SparseGibbsLinkScore(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the parameters of the q priors */
-  density = (2.0 * nlink / (double)(nnod * (nnod - 1)));
+  density = (nnod > 1) ? (2.0 * nlink / (double)(nnod * (nnod - 1))) : 0.0;
+  if (nlink == 0 || density >= 1.0) {
+    /* Empty or complete network: the prior for q has no width, and
+       all scores are equal to the density */
+    predA = allocate_d_mat(nnod, nnod);
+    for (i=0; i<nnod; i++)
+      for (j=0; j<nnod; j++)
+	predA[i][j] = density;
+    return predA;
+  }
   betaB = .5;
   betaA = density * betaB / (1.0 - density);
 
-- 
2.43.0


From b460d390b6bd1cf589c738ac72e0ba6fe26964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:32 +0000
Subject: [PATCH 56/92] fix: thermalization never ended when the energy is
 constant

---
 src/missing.c   | 3 ++-
 src/recommend.c | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 13538cf..43299f3 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1697,7 +1697,8 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 0503f55..dcc0f19 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -699,7 +699,8 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1532,7 +1533,8 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2215,7 +2217,8 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From 7702bef32b2bf3ba7709abeb9f411a98e58fe9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 57/92] fix: the Metropolis chain of the recommenders was
 periodic for sets of 2 nodes

---
 src/recommend.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/recommend.c b/src/recommend.c
index dcc0f19..5b2ff02 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -325,7 +325,7 @@ MCStep2State(int factor,
       oldgnum = node->inGroup;
       do {
 	newgnum = floor(gsl_rng_uniform(gen) * (double)nnod1);
-      } while (newgnum == oldgnum);
+      } while (newgnum == oldgnum && nnod1 > 2);
       oldg = glist1[oldgnum];
       newg = glist1[newgnum];
       g = g2 = part2;
@@ -348,12 +348,17 @@ MCStep2State(int factor,
       oldgnum = node->inGroup;
       do {
 	newgnum = floor(gsl_rng_uniform(gen) * (double)nnod2);
-      } while (newgnum == oldgnum);
+      } while (newgnum == oldgnum && nnod2 > 2);
       oldg = glist2[oldgnum];
       newg = glist2[newgnum];
       g = g2 = part1;
     }
 
+    /* With 2 nodes, staying in the same group must be possible:
+       otherwise, all accepted moves alternate between 2 states */
+    if (newgnum == oldgnum)
+      continue;
+
     /* THE CHANGE OF ENERGY: OLD CONFIGURATION CONTRIBUTION */
     dH = 0.0;
 
@@ -1168,7 +1173,7 @@ MCStepKState(int K,
       oldgnum = node->inGroup;
       do {
 	newgnum = floor(gsl_rng_uniform(gen) * (double)nnod1);
-      } while (newgnum == oldgnum);
+      } while (newgnum == oldgnum && nnod1 > 2);
       oldg = glist1[oldgnum];
       newg = glist1[newgnum];
       g = g2 = part2;
@@ -1189,12 +1194,17 @@ MCStepKState(int K,
       oldgnum = node->inGroup;
       do {
 	newgnum = floor(gsl_rng_uniform(gen) * (double)nnod2);
-      } while (newgnum == oldgnum);
+      } while (newgnum == oldgnum && nnod2 > 2);
       oldg = glist2[oldgnum];
       newg = glist2[newgnum];
       g = g2 = part1;
     }
 
+    /* With 2 nodes, staying in the same group must be possible:
+       otherwise, all accepted moves alternate between 2 states */
+    if (newgnum == oldgnum)
+      continue;
+
     /* THE CHANGE OF ENERGY: OLD CONFIGURATION CONTRIBUTION */
     dH = 0.0;
 
-- 
2.43.0


From 224110b46484d6f20b04d70d69122dcc71cf0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 58/92] fix: netcarto could not read back the partitions it
 writes

---
 netcarto/main_netcarto.c |  1 +
 src/io.c                 | 35 +++++++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..25b698c 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -211,6 +211,7 @@ main(int argc, char **argv)
 	fclose(inF);
 	if (i){
 	  printf ("Error: %d nodes are missing from the partition file.\n",i);
+	  return(1);
 	}
 	printf ("# %d modules read \n",part->M);
   }
diff --git a/src/io.c b/src/io.c
index 8e0c0c5..65dccaa 100644
--- a/src/io.c
+++ b/src/io.c
@@ -248,25 +248,37 @@ int
 AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
+  char *line = NULL, *label = NULL;
+  size_t bufsiz = 0;
+  int j = 0, nnode = part->N;
   hcreate(part->N);
   int i;
   ENTRY e, *ep;
+  char *assigned = (char *) calloc(part->N, sizeof(char));
 
   for (i=0;i<nnode;i++){
 	e.key = labels[i];
-	e.data = (void *) i;
+	e.data = (void *) (size_t) i;
 	ep = hsearch(e, ENTER);
   }
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+  // Each line is a module: its labels, separated by tabulations.
+  while (getline(&line, &bufsiz, inF) != -1){
+	if (line[0] == '#')
+	  continue;
+	for (label=strtok(line,"\t\r\n"); label!=NULL; label=strtok(NULL,"\t\r\n")){
 	  e.key = label;
 	  ep = hsearch(e, FIND);
-	  i = (int) ep->data;
+	  if (ep == NULL) {
+		fprintf(stderr, "WARNING: %s is not in the network, ignored.\n", label);
+		continue;
+	  }
+	  i = (int) (size_t) ep->data;
+	  if (assigned[i]) {
+		fprintf(stderr, "WARNING: %s appears twice in the partition, ignored.\n", label);
+		continue;
+	  }
+	  assigned[i] = 1;
 	  nnode--;
 
 	  if (!part->modules[j]->size){
@@ -285,10 +297,13 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
 	}
+	// There are at most as many modules as nodes.
+	if (j < part->M-1 && part->modules[j]->size)
+	  j++;
   }
+  free(line);
+  free(assigned);
 
   CompressPartition(part);
   hdestroy();
-- 
2.43.0


From a66a3ab6feefd7e9b5c5055ae105f7a93c54355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 59/92] fix: netcarto -t without -b read the network as
 bipartite

---
 netcarto/main_netcarto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index 25b698c..a809d3d 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -166,7 +166,7 @@ main(int argc, char **argv)
   unsigned int *nodes1 = NULL,*nodes2 = NULL;
   unsigned int E,N;
   double *weights = NULL;
-	err = EdgeListFileInput(inF, weighted, bipartite+invert,
+	err = EdgeListFileInput(inF, weighted, bipartite ? 1+invert : 0,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
 	if (Ngroups==0) Ngroups=N;
-- 
2.43.0


From 6eaf9cd1bc85b3c54d85181827b577b5b9c9bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 60/92] fix: netcarto went on with unreadable or empty networks
 and overflowed on long labels

---
 netcarto/main_netcarto.c |  5 +++++
 src/io.c                 | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index a809d3d..9366e68 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -169,6 +169,11 @@ main(int argc, char **argv)
 	err = EdgeListFileInput(inF, weighted, bipartite ? 1+invert : 0,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err) return(1);
+	if (E == 0) {
+	  printf ("ERROR: the network has no edges.\n");
+	  return(1);
+	}
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
diff --git a/src/io.c b/src/io.c
index 65dccaa..1eb6ee3 100644
--- a/src/io.c
+++ b/src/io.c
@@ -42,6 +42,22 @@ free_node_tree(void *root)
 }
 
 
+/**
+@brief Length of the longest field (separated by white space) of a line.
+*/
+static size_t
+LongestField(const char *line)
+{
+  size_t n, longest = 0;
+  while (*line != '\0') {
+    line += strspn(line, " \t\n\v\f\r");
+    n = strcspn(line, " \t\n\v\f\r");
+    if (n > longest) longest = n;
+    line += n;
+  }
+  return longest;
+}
+
 /**
 Read an edge list from a file and convert it to arrays.
 @param nodes_in_p,nodes_out_p,weights_p Edge list, nodes id and weight of each edge.
@@ -96,6 +112,12 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     struct node *temp = NULL;
 
 
+    /* Labels must fit in the space reserved for them */
+    if (LongestField(line) >= MAX_LABEL_LENGTH){
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return 1;
+    }
+
     /* Read the labels (and edge weight, if necessary) */
     if (weighted == 0) {
       noReadItems = sscanf(line, "%s %s", node1->label, node2->label);
-- 
2.43.0


From ca9944020a23fdaced2cc50464c69bce527026b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 61/92] fix: programs crashed on missing files, unreadable
 input and missing arguments

---
 conflict/main_conflict.c                      |  4 +++-
 multiblock/main_reliability_links_mb.c        |  6 ++++--
 multiblock/main_reliability_links_mb_OR.c     |  6 ++++--
 multiblock/main_reliability_links_mb_gibbs.c  |  8 +++++---
 .../main_reliability_links_mb_gibbs_OR.c      |  8 +++++---
 netcarto/main_netcarto_legacy.c               |  4 +++-
 only_deg/main_only_degeneration_mb.c          |  8 +++++---
 only_deg/main_only_degeneration_mb_gibbs.c    |  8 +++++---
 recommender/main_multi_recommend_2.c          |  8 +++++---
 recommender/main_multi_recommend_k.c          |  8 +++++---
 recommender/main_multi_recommend_k_gibbs.c    |  8 +++++---
 reliability/main_reliability_links.c          |  6 ++++--
 reliability/main_reliability_links_gibbs.c    |  6 ++++--
 .../main_reliability_links_gibbs_sparse.c     |  8 +++++---
 reliability/main_reliability_links_k.c        |  6 ++++--
 reliability/main_reliability_reconstruct.c    |  4 +++-
 src/tools.c                                   | 20 ++++++++++++++++++-
 src/tools.h                                   |  3 +++
 utils/main_bipartitemodularity.c              | 14 +++++++++++--
 utils/main_bipartitemodularity_w.c            | 14 +++++++++++--
 utils/main_countlinks.c                       |  5 ++++-
 utils/main_getgiant.c                         |  4 +++-
 utils/main_lapspec.c                          |  4 +++-
 utils/main_modularbipart.c                    |  5 +++++
 utils/main_multinetlayout.c                   |  4 +++-
 utils/main_mutualinfo.c                       | 14 +++++++++++--
 utils/main_netcompare.c                       |  8 ++++++--
 utils/main_netlayout.c                        |  4 +++-
 utils/main_netprop.c                          |  4 +++-
 utils/main_netrandomize.c                     |  7 +++++--
 utils/main_nodeprop.c                         |  5 ++++-
 31 files changed, 166 insertions(+), 55 deletions(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index a53100f..daa5cde 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -41,8 +41,10 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observation network */
-  infile = fopen(obsFile, "r");
+  infile = OpenInputFile(obsFile);
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
   nquery = CountNodes(ratings->net1) * CountNodes(ratings->net2);
 
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..5f9a959 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..aabfc1b 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..b25923d 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..41575f0 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..9f78fa7 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -104,8 +104,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile=fopen(netF,"r");
+  inFile = OpenInputFile(netF);
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(inFile);
 
   S = CountNodes(net);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..e2030b3 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..7bf923e 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,8 +44,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..524f46d 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
@@ -43,14 +43,16 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
+  infile = OpenInputFile(obsFile);
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..9b2dbd6 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
@@ -45,14 +45,16 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
+  infile = OpenInputFile(obsFile);
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..3609e0f 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
@@ -45,14 +45,16 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
+  infile = OpenInputFile(obsFile);
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries end build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..ccaae5f 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -45,8 +45,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..233d520 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -45,8 +45,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..02a9b9d 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,9 +31,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -45,8 +45,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..e33452a 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
@@ -49,8 +49,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 1, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index b56ddf4..323e92e 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -37,8 +37,10 @@ main(int argc, char **argv)
   seed = atoi(argv[2]);
 
   /* Build the network */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /* Reconstruct the network */
diff --git a/src/tools.c b/src/tools.c
index 0c7e617..d2c3cec 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -612,7 +612,7 @@ CountLinesInFile(char *inFileName)
   int n=0, start=1;
   FILE *inFile;
 
-  inFile = fopen(inFileName, "r");
+  inFile = OpenInputFile(inFileName);
   while (fgets(line, 1000, inFile)) {
     if (start) // A long line comes in several pieces
       n++;
@@ -622,3 +622,21 @@ CountLinesInFile(char *inFileName)
 
   return n;
 }
+
+/*
+  -----------------------------------------------------------------------------
+  Open a file for reading, or end the program if that is not possible
+  -----------------------------------------------------------------------------
+*/
+FILE *
+OpenInputFile(char *inFileName)
+{
+  FILE *inFile = fopen(inFileName, "r");
+
+  if (inFile == NULL) {
+    fprintf(stderr, "ERROR: cannot open file %s\n", inFileName);
+    exit(1);
+  }
+
+  return inFile;
+}
diff --git a/src/tools.h b/src/tools.h
index 4ae61d6..b4662d6 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -7,6 +7,8 @@
 #ifndef RGRAPH_TOOLS_H
 #define RGRAPH_TOOLS_H 1
 
+#include <stdio.h>
+
 #include <gsl/gsl_rng.h>
 
 /*
@@ -78,5 +80,6 @@ void FreeHarmonicList(double *HarmonicList);
   ---------------------------------------------------------------------
 */
 int CountLinesInFile(char *inFileName);
+FILE *OpenInputFile(char *inFileName);
 
 #endif /* !RGRAPH_TOOLS_H */
diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..9d69c3b 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -7,6 +7,7 @@
 #include "bipartite.h"
 #include "graph.h"
 #include "modules.h"
+#include "tools.h"
 
 int main(int argc,char* argv[])
 {
@@ -14,20 +15,29 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the network...");
-  inf = fopen(argv[1], "r");
+  inf = OpenInputFile(argv[1]);
   binet = FBuildNetworkBipart(inf, 0, 0);
+  if (binet == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
-  inf = fopen(argv[2], "r");
+  inf = OpenInputFile(argv[2]);
   part = FCreatePartition(inf);
+  if (part == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..6496c6b 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -7,6 +7,7 @@
 #include "bipartite.h"
 #include "graph.h"
 #include "modules.h"
+#include "tools.h"
 
 int main(int argc,char* argv[])
 {
@@ -14,20 +15,29 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity_w net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the network...");
-  inf = fopen(argv[1], "r");
+  inf = OpenInputFile(argv[1]);
   binet = FBuildNetworkBipart(inf, 1, 0);
+  if (binet == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
-  inf = fopen(argv[2], "r");
+  inf = OpenInputFile(argv[2]);
   part = FCreatePartition(inf);
+  if (part == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index 40e54ef..65b2608 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -9,6 +9,7 @@
 #include <stdlib.h>
 
 #include "graph.h"
+#include "tools.h"
 
 int
 main(int argc, char **argv)
@@ -34,8 +35,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b454f0a..6644ac5 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -20,8 +20,10 @@ main(int argc, char **argv)
   netF = argv[1];
 
   /* Build the network */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the giant component and print it */
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 274be38..fdfe506 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -25,8 +25,10 @@ main(int argc, char **argv)
   netF = argv[1];
 
   /* Build the network */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
   nnod = CountNodes(net);
 
diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index b50a7c0..5f7cf8e 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -22,6 +22,11 @@ main(int argc, char **argv)
   double teamHomog;
 
   /* Command line parameters */
+  if (argc < 7) {
+    printf("\nUse: modularbipart n_modules module_size n_teams team_size team_homogeneity seed\n\n");
+    return -1;
+  }
+
   nMod = atoi(argv[1]);
   modSize = atoi(argv[2]);
   nTeam = atoi(argv[3]);
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index 63fdae0..e786938 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -42,8 +42,10 @@ main(int argc, char **argv)
   */
   for (i=0; i<nnet; i++) {
     netF = argv[i+1];
-    inFile = fopen(netF, "r");
+    inFile = OpenInputFile(netF);
     net[i] = FBuildNetwork(inFile, 0, 0, 0, 1);
+    if (net[i] == NULL)
+      return 1;
     fclose(inFile);
   }
 
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..ae5fb6d 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -6,6 +6,7 @@
 
 #include "graph.h"
 #include "modules.h"
+#include "tools.h"
 
 int main(int argc,char* argv[])
 {
@@ -13,19 +14,28 @@ int main(int argc,char* argv[])
   struct group *part1 = NULL;
   struct group *part2 = NULL;
 
+  if (argc < 3) {
+    printf("\nUse: mutualinfo partition_file_1 partition_file_2\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the partition...\n");
-  inf = fopen(argv[1], "r");
+  inf = OpenInputFile(argv[1]);
   part1 = FCreatePartition(inf);
+  if (part1 == NULL)
+    return 1;
   fclose(inf);
 
   //fprintf(stderr, "Creating the partition...\n");
-  inf = fopen(argv[2], "r");
+  inf = OpenInputFile(argv[2]);
   part2 = FCreatePartition(inf);
+  if (part2 == NULL)
+    return 1;
   fclose(inf);
 
   /*
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 04b9bd0..904f139 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -40,12 +40,16 @@ main(int argc, char **argv)
     Build the networks
     ---------------------------------------------------------------------------
   */
-  inFile = fopen(netFA, "r");
+  inFile = OpenInputFile(netFA);
   netA = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netA == NULL)
+    return 1;
   fclose(inFile);
 
-  inFile = fopen(netFB, "r");
+  inFile = OpenInputFile(netFB);
   netB = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netB == NULL)
+    return 1;
   fclose(inFile);
 
   /*
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index 175cc1a..851fc2a 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -54,8 +54,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  inFile=fopen(netF, "r");
+  inFile = OpenInputFile(netF);
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(inFile);
   S = CountNodes(net);
   L = TotalNLinks(net, 1);
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..07f9628 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -31,8 +31,10 @@ main(int argc, char **argv)
 /*   prng_seed(rand_gen, seed); */
 
   /* Build the network */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..7dd5bb0 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -11,6 +11,7 @@
 #include <gsl/gsl_rng.h>
 
 #include "graph.h"
+#include "tools.h"
 
 int
 main(int argc, char **argv)
@@ -26,7 +27,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
@@ -40,8 +41,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index 0c42d9e..e067759 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -9,6 +9,7 @@
 #include <stdlib.h>
 
 #include "graph.h"
+#include "tools.h"
 
 int
 main(int argc, char **argv)
@@ -34,8 +35,10 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
+  infile = OpenInputFile(netF);
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
-- 
2.43.0


From a7f611851e486c04e65b75869a512568eea2d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 62/92] fix: the multiblock programs overflowed on long network
 file names

---
 multiblock/main_reliability_links_mb.c          | 5 ++++-
 multiblock/main_reliability_links_mb_OR.c       | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs.c    | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs_OR.c | 5 ++++-
 only_deg/main_only_degeneration_mb.c            | 5 ++++-
 only_deg/main_only_degeneration_mb_gibbs.c      | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 5f9a959..b1808cc 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index aabfc1b..5d91531 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index b25923d..7aa8477 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = fopen(outFileNameAND, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index 41575f0..22c6857 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = fopen(outFileNameOR, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index e2030b3..a2d130c 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 7bf923e..2c2e022 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -23,7 +24,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName;
 
   /*
     ---------------------------------------------------------------------------
@@ -62,6 +63,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = fopen(outFileName, "w");
@@ -74,6 +76,7 @@ main(int argc, char **argv)
     }
   }
   fclose(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0


From 70a55f2e00244d857a42a362909e1af2abc063f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 63/92] fix: SACommunityIdent was not declared, so
 netcarto_legacy truncated the partition it returns

---
 src/modules.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules.h b/src/modules.h
index ed30750..92279b1 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -170,6 +170,14 @@ double WithinModuleRelativeDegree(struct node_gra *node,
 double WithinModuleRelativeStrength(struct node_gra *node,
 									struct group *group);
 
+struct group *SACommunityIdent(struct node_gra *net,
+			       double Ti, double Tf, double Ts,
+			       double fac,
+			       int ngroup,
+			       char initial_sw,
+			       int collective_sw,
+			       char output_sw,
+			       gsl_rng *gen);
 struct group *CatalogRoleIdent(struct node_gra *net,
 							   struct group *comm);
 struct group *CatalogRoleIdentStrength(struct node_gra *net,
-- 
2.43.0


From c16ce935b1322b6f7cb3eab01eb8298a3e234724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 64/92] fix: SACommunityIdent never returned for a single group
 and crashed without links

---
 src/modules.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 34e48ec..830d5ad 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2344,6 +2344,8 @@ SACommunityIdent(struct node_gra *net,
   */
   /* Initialize some variables */
   nnod = CountNodes(net);
+  if (ngroup < 1)
+    ngroup = nnod;
   ResetNetGroup(net);
   part = CreateHeaderGroup();
   p = net;
@@ -2406,6 +2408,10 @@ SACommunityIdent(struct node_gra *net,
   T = Ti;
   energy = Modularity(part);
 
+  /* With a single group, or without links, there is nothing to optimize */
+  if (ngroup < 2 || totallinks == 0)
+    count = limit;
+
   /* Temperature loop */
   while (T > Tf && count < limit) {
 
@@ -2650,7 +2656,8 @@ SACommunityIdent(struct node_gra *net,
   } /*  End of simulated annealing */
  
   /* Free memory */
-  RemovePartition(best_part);
+  if (best_part != NULL)
+    RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0


From 52f7504aacd4a8a9eff6f958b21834ba84c632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 65/92] fix: netcarto_legacy used an uninitialised file name,
 and could not work on an empty network

---
 netcarto/main_netcarto_legacy.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 9f78fa7..2638521 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <unistd.h>
 #include <stdlib.h>
+#include <string.h>
  
 #include <gsl/gsl_rng.h>
 #include "tools.h"
@@ -40,7 +41,8 @@ main(int argc, char **argv)
   double Tsched = 0.995, Tf = 0.0;
   double iterfac = 1.0;
   gsl_rng *rand_gen;
-  char *netF;
+  char netFName[1001];
+  char *netF = NULL;
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -50,10 +52,11 @@ main(int argc, char **argv)
   if (argc == 1) {
 
   printf("\n# Enter random number seed (POSITIVE integer): ");
-  scanf("%d", &seed);
+  scanf("%ld", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  if (scanf("%1000s", netFName) == 1)
+    netF = netFName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
@@ -87,6 +90,8 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
 		break;
 	  }
   }
+  if (rep < 0)
+    rep = 0;
   ranmodlis = allocate_d_vec(rep);
 
   /*
@@ -104,11 +109,18 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile = OpenInputFile(netF);
+  if (netF == NULL || strcmp(netF, "-") == 0)
+    inFile = stdin;
+  else
+    inFile = OpenInputFile(netF);
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
   if (net == NULL)
     return 1;
   fclose(inFile);
+  if (TotalNLinks(net, 1) == 0) {
+    fprintf(stderr, "ERROR: the network has no links\n");
+    return 1;
+  }
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
-- 
2.43.0


From db61663f3e54d55bd693ac23e79d5f5fd2973ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 66/92] fix: ReadQueries overflowed on long labels and made up
 queries it could not read

---
 recommender/main_multi_recommend_2.c       |  2 ++
 recommender/main_multi_recommend_k.c       |  2 ++
 recommender/main_multi_recommend_k_gibbs.c |  2 ++
 src/recommend.c                            | 19 +++++++++++++++----
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 524f46d..4c127a1 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -54,6 +54,8 @@ main(int argc, char **argv)
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index 9b2dbd6..5220a69 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -56,6 +56,8 @@ main(int argc, char **argv)
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index 3609e0f..29ce5da 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -56,6 +56,8 @@ main(int argc, char **argv)
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = OpenInputFile(queFile);
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/src/recommend.c b/src/recommend.c
index 5b2ff02..3457698 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -151,7 +151,8 @@ ReadRecommenderObservations(FILE *inFile)
 
   representing the pairs (person, movie) that we want to predict. If a
   node in a query is missing from the bipartite ratings network, it is
-  added with no links.
+  added with no links. Returns NULL if the nQueries queries cannot be
+  read.
   
   -----------------------------------------------------------------------------
 */
@@ -159,12 +160,11 @@ struct query **
 ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 {
   void *dict1, *dict2;
-  char node1[MAX_LABEL_LENGTH], node2[MAX_LABEL_LENGTH];
+  char node1[MAX_LABEL_LENGTH + 1], node2[MAX_LABEL_LENGTH + 1];
   struct query **querySet;
   struct query *q=NULL;
   int nq;
   struct node_gra *n1=NULL, *n2=NULL;
-  int dummy;
 
   /* Create the search dictionaries */
   dict1 = MakeLabelDict(binet->net1);
@@ -175,7 +175,18 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    if (fscanf(inFile, "%100s %100s\n", node1, node2) != 2 ||
+	strlen(node1) >= MAX_LABEL_LENGTH ||
+	strlen(node2) >= MAX_LABEL_LENGTH) {
+      fprintf(stderr, "ERROR: cannot read query %d (two labels of at most %d characters)\n",
+	      nq + 1, MAX_LABEL_LENGTH - 1);
+      while (nq > 0)
+	FreeQuery(querySet[--nq]);
+      free(querySet);
+      FreeLabelDict(dict1);
+      FreeLabelDict(dict2);
+      return NULL;
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
-- 
2.43.0


From 20df1de0866ba954a2855246610b014a5e5da6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 67/92] fix: netprop overflowed with more than 1000 components

---
 utils/main_netprop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 07f9628..1c46248 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -41,6 +41,8 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **) calloc(CountNodes(net) + 1,
+					   sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
-- 
2.43.0


From 0635693fabaa70ea9966d65817e7c60a0c7e8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 68/92] fix: the synchronizability of a network without links
 read past the spectrum

---
 src/matrix.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index ff0562f..417b975 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <search.h>
 
+#include <gsl/gsl_math.h>
 #include <gsl/gsl_math.h>
 #include <gsl/gsl_eigen.h>
 #include <gsl/gsl_sort_vector.h>
@@ -79,7 +80,7 @@ LaplacianMat(struct node_gra *net)
 }
 
 /*
-  Get the spectrum of the Laplacian
+  Get the spectrum of the Laplacian (NULL for a network without nodes)
 */
 gsl_vector *
 LaplacianSpectrum(struct node_gra *net)
@@ -91,6 +92,12 @@ LaplacianSpectrum(struct node_gra *net)
   gsl_eigen_symm_workspace *workspace;
   gsl_vector *eval;
 
+  /* Nothing to do without nodes */
+  if (nnod == 0) {
+    free_i_mat(L, nnod);
+    return NULL;
+  }
+
   /* Create a Laplacian ready for GSL use */
   gslL = gsl_matrix_calloc(nnod, nnod);
   for (i=0; i<nnod; i++)
@@ -113,7 +120,8 @@ LaplacianSpectrum(struct node_gra *net)
 
 /*
   Get the "synchronizability", that is the ratio between the largest
-  and the smallest (non-zero) eigenvalues of the Laplacian.
+  and the smallest (non-zero) eigenvalues of the Laplacian (NaN if there
+  are no links).
 */
 double
 Synchronizability(struct node_gra *net)
@@ -122,10 +130,15 @@ Synchronizability(struct node_gra *net)
   int count=0, nnod=CountNodes(net);
   double l2=-1.0, lN=-1.0;
   
+  if (spec == NULL)
+    return GSL_NAN;
+
   lN = gsl_vector_get(spec, nnod - 1);
-  while (l2 < 1e-10)
+  while (l2 < 1e-10 && count < nnod)
     l2 = gsl_vector_get(spec, count++);
   
   gsl_vector_free(spec);
+  if (l2 < 1e-10)
+    return GSL_NAN;
   return lN / l2;
 }
-- 
2.43.0


From 7c44b8da58e80314554b8941cff7d925c306408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 69/92] fix: modularbipart never ended with teams larger than
 the population

---
 utils/main_modularbipart.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index 5f7cf8e..be5885f 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -33,6 +33,11 @@ main(int argc, char **argv)
   teamSize = atoi(argv[4]);
   teamHomog = atof(argv[5]);
   seed = atoi(argv[6]);
+  if (nMod < 1 || modSize < 1 || nTeam < 0 ||
+      teamSize < 0 || teamSize > nMod * modSize) {
+    fprintf(stderr, "ERROR: teams must have between 0 and n_modules * module_size members\n");
+    return 1;
+  }
   
   /* Initialize the random number generator */
   randGen = gsl_rng_alloc(gsl_rng_mt19937);
-- 
2.43.0


From 93d4d35bfe35849437f40d319884146320138707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 70/92] fix: bipartitemodularity crashed on partitions with
 nodes that are not in the network

---
 utils/main_bipartitemodularity.c   | 14 +++++++++++++-
 utils/main_bipartitemodularity_w.c | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 9d69c3b..aa5205b 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -13,7 +13,9 @@ int main(int argc,char* argv[])
 {
   FILE *inf = NULL;
   struct binet *binet = NULL;
-  struct group *part = NULL;
+  struct group *part = NULL, *g = NULL;
+  struct node_lis *nod = NULL;
+  void *nodeDict = NULL;
 
   if (argc < 4) {
     printf("\nUse: bipartitemodularity net_file partition_file invert(0/1)\n\n");
@@ -47,6 +49,16 @@ int main(int argc,char* argv[])
   }
   //fprintf(stderr, "done.\n");
 
+  // Make sure that the partition contains nodes of the network only
+  nodeDict = MakeLabelDict(binet->net1);
+  for (g = part->next; g != NULL; g = g->next)
+    for (nod = g->nodeList->next; nod != NULL; nod = nod->next)
+      if (GetNodeDict(nod->nodeLabel, nodeDict) == NULL) {
+	fprintf(stderr, "ERROR: node %s is not in the network\n", nod->nodeLabel);
+	return 1;
+      }
+  FreeLabelDict(nodeDict);
+
   //fprintf(stderr, "Mapping the partition...");
   MapPartToNet(part, binet->net1);
   //fprintf(stderr, "done.\n");
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index 6496c6b..66aae22 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -13,7 +13,9 @@ int main(int argc,char* argv[])
 {
   FILE *inf = NULL;
   struct binet *binet = NULL;
-  struct group *part = NULL;
+  struct group *part = NULL, *g = NULL;
+  struct node_lis *nod = NULL;
+  void *nodeDict = NULL;
 
   if (argc < 4) {
     printf("\nUse: bipartitemodularity_w net_file partition_file invert(0/1)\n\n");
@@ -47,6 +49,16 @@ int main(int argc,char* argv[])
   }
   //fprintf(stderr, "done.\n");
 
+  // Make sure that the partition contains nodes of the network only
+  nodeDict = MakeLabelDict(binet->net1);
+  for (g = part->next; g != NULL; g = g->next)
+    for (nod = g->nodeList->next; nod != NULL; nod = nod->next)
+      if (GetNodeDict(nod->nodeLabel, nodeDict) == NULL) {
+	fprintf(stderr, "ERROR: node %s is not in the network\n", nod->nodeLabel);
+	return 1;
+      }
+  FreeLabelDict(nodeDict);
+
   //fprintf(stderr, "Mapping the partition...");
   MapPartToNet(part, binet->net1);
   //fprintf(stderr, "done.\n");
-- 
2.43.0


From b10d59459b937a5daed3d5e97f9a7aa3cbe819b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 71/92] fix: the K-state programs accepted a number of states
 that is not positive

---
 recommender/main_multi_recommend_k.c       | 4 ++++
 recommender/main_multi_recommend_k_gibbs.c | 4 ++++
 reliability/main_reliability_links_k.c     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index 5220a69..79cfcd6 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -38,6 +38,10 @@ main(int argc, char **argv)
     return -1;
   }
   K = atoi(argv[1]);
+  if (K < 1) {
+    fprintf(stderr, "ERROR: the number of states must be positive\n");
+    return 1;
+  }
   obsFile = argv[2];
   queFile = argv[3];
   seed = atoi(argv[4]);
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index 29ce5da..067fb26 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -38,6 +38,10 @@ main(int argc, char **argv)
     return -1;
   }
   K = atoi(argv[1]);
+  if (K < 1) {
+    fprintf(stderr, "ERROR: the number of states must be positive\n");
+    return 1;
+  }
   obsFile = argv[2];
   queFile = argv[3];
   seed = atoi(argv[4]);
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index e33452a..72fe3a3 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -39,6 +39,10 @@ main(int argc, char **argv)
     return -1;
   }
   K = atoi(argv[1]);
+  if (K < 1) {
+    fprintf(stderr, "ERROR: the number of states must be positive\n");
+    return 1;
+  }
   netF = argv[2];
   seed = atoi(argv[3]);
   rand_gen = gsl_rng_alloc(gsl_rng_mt19937);
-- 
2.43.0


From 42b44cf4e77bf4ddb6d3f992ff02add151813f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 72/92] fix: three-dimensional layouts mixed their progress
 report into the printed coordinates

---
 src/layout.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index e663af6..5033e10 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -1098,7 +1098,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1208,7 +1208,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
@@ -1272,7 +1272,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1382,7 +1382,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
-- 
2.43.0


From fae0e7460fffb41472e408f12c43eb5d86ba6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 73/92] fix: connected sets of a network without nodes

---
 src/graph.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index ed27cb2..590759e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2506,6 +2506,9 @@ IsGraphConnected(struct node_gra *p)
   int d;
   int N = CountNodes(p);
 
+  if (N == 0)
+    return 1;
+
   r1 = 0;
   size = &r1;
 
@@ -2594,6 +2597,9 @@ CountStronglyConnectedSets(struct node_gra *root)
   int d;
   int nclus = 0;
 
+  if (nnod == 0)
+    return 0;
+
   selected = allocate_i_vec(nnod);
   this_net = allocate_i_vec(nnod);
 
@@ -2680,6 +2686,9 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
   int maxS = 0;
   struct node_gra *giant = NULL;
 
+  if (nnod == 0)
+    return CreateHeaderGraph();
+
   selected = allocate_i_vec(nnod);
   this_net = allocate_i_vec(nnod);
 
@@ -2791,6 +2800,9 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
   int grown;
   struct node_gra *giant = NULL;
 
+  if (nnod == 0)
+    return CreateHeaderGraph();
+
   selected = allocate_i_vec(nnod);
   this_net = allocate_i_vec(nnod);
 
-- 
2.43.0


From 6a581f71a7c2ca393d3c626d45c7562cb1357313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 74/92] fix: multinetlayout without arguments declared an array
 without elements

---
 utils/main_multinetlayout.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index e786938..97d6bac 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -13,7 +13,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *inFile;
   int i, nnet = argc - 1;
-  struct node_gra *net[nnet];
+  struct node_gra **net;
   struct node_gra *net_sum = NULL, *new_net_sum = NULL;
   gsl_rng *rand_gen;
 
@@ -26,6 +26,7 @@ main(int argc, char **argv)
     printf("\nUse: multinetlayout.out net_file_1 net_file_2 [net_file_3...]\n\n");
     return -1;
   }
+  net = (struct node_gra **) malloc(nnet * sizeof(struct node_gra *));
 
   /*
     ---------------------------------------------------------------------------
@@ -70,6 +71,7 @@ main(int argc, char **argv)
   */
   for (i=0; i<nnet; i++)
     RemoveGraph(net[i]);
+  free(net);
   RemoveGraph(net_sum);
   gsl_rng_free(rand_gen);
   return 0;
-- 
2.43.0


From 8f127d53a1fd1727a7cbf4f142a2749dded13101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 75/92] fix: GetAllConnectedSets of a network without nodes

---
 src/graph.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 590759e..ecf5c8f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2954,6 +2954,9 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int numComponents=0;
 
   numNodes=CountNodes(network);
+  if (numNodes == 0)
+    return 0;
+
   selected=allocate_i_vec(numNodes);
   thisNet=allocate_i_vec(numNodes);
 
-- 
2.43.0


From dc2560a9356590ff30a9fc3d6aa3a9be70e147c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 76/92] fix: smallest and largest of an array without values

---
 src/tools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index d2c3cec..40caf3b 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -277,7 +277,7 @@ double
 max(double *data, int N)
 {
   int i;
-  double m = data[0];
+  double m = (N > 0) ? data[0] : NAN; /* As the mean of no values */
 
   for (i=1; i<N; i++)
     if (data[i] > m)
@@ -295,7 +295,7 @@ double
 min(double *data, int N)
 {
   int i;
-  double m = data[0];
+  double m = (N > 0) ? data[0] : NAN; /* As the mean of no values */
 
   for (i=1; i<N; i++)
     if (data[i] < m)
-- 
2.43.0


From caaa81b436d062a57c2c5d44ff48de399a3160f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 77/92] fix: decorrelation estimate used an unset solver when
 the overlap does not decay

---
 src/missing.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 43299f3..a96acf4 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -79,8 +79,10 @@ CalculateDecay(int nnod, double x1, double y1, double x2, double y2)
   
   T = gsl_multiroot_fsolver_hybrids;
   s = gsl_multiroot_fsolver_alloc (T, n);
-  gsl_multiroot_fsolver_set (s, &f, x);
-  do
+  status = gsl_multiroot_fsolver_set (s, &f, x);
+  if (status)   /* singular at the initial guess: the solver has no state */
+    status = gsl_multiroot_test_residual(s->f, 1e-7);
+  else do
     {
       iter++;
       status = gsl_multiroot_fsolver_iterate (s);
-- 
2.43.0


From d20cb8b641608a470166840ef4410461b929ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 78/92] fix: SquareClustering followed a null pointer when a
 node has no second neighbours

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index ecf5c8f..da687b2 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1969,8 +1969,9 @@ SquareClustering(struct node_gra *root)
       return -1.0;
     }
     k1b = *size-1;
-    if(*size<totnodes){
+    if(*size<totnodes)
       lp = RenewQueue(list,lp,size,1); // Second neighbors
+    if(*size>k1b+1){
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-- 
2.43.0


From 5e8e0ca6e5fbb249592c179a55d63739cff4d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:02 +0000
Subject: [PATCH 79/92] fix: the Laplacian spectrum of a network with
 self-loops crashed instead of being refused

---
 src/matrix.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 417b975..6c255f2 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -63,7 +63,8 @@ LaplacianMat(struct node_gra *net)
   for (i=0; i<nnod; i++) {
     p = p->next;
     if (L[i][i] > 0) {
-      fprintf(stderr, "ERROR: Graph contains self-loops (this will crash)");
+      fprintf(stderr, "ERROR: Graph contains self-loops\n");
+      free_i_mat(L, nnod);
       return NULL;
     }
     else {
@@ -80,7 +81,8 @@ LaplacianMat(struct node_gra *net)
 }
 
 /*
-  Get the spectrum of the Laplacian (NULL for a network without nodes)
+  Get the spectrum of the Laplacian (NULL for a network without nodes
+  or with self-loops)
 */
 gsl_vector *
 LaplacianSpectrum(struct node_gra *net)
@@ -92,7 +94,9 @@ LaplacianSpectrum(struct node_gra *net)
   gsl_eigen_symm_workspace *workspace;
   gsl_vector *eval;
 
-  /* Nothing to do without nodes */
+  /* Nothing to do with self-loops or without nodes */
+  if (L == NULL)
+    return NULL;
   if (nnod == 0) {
     free_i_mat(L, nnod);
     return NULL;
-- 
2.43.0


From 23bab49833d6676e81c2110964c9804105a1c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 80/92] fix: BlockModel overflowed int for networks of a few
 hundred nodes

---
 src/modules.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 830d5ad..99b064b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -762,7 +762,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
       }
     }
   }
-  prob = 2.0 * (double)links / (double)(nodes * (nodes - 1));
+  prob = 2.0 * (double)links / ((double)nodes * (double)(nodes - 1));
 
   /* Calculate and print the blockmodel */
   g1 = part;
@@ -789,33 +789,33 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	  case 'p':
 	    if (g1 == g2)
 	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * (g1->size - 1));
+		((double)g1->size * (double)(g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * g2->size);
+		((double)g1->size * (double)g2->size);
 	    break;
 	  case 'e':
 	    if (g1 == g2)
 	      bij = (double)g1->inlinks / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    else
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-	      av = prob * (double)(g1->size * (g1->size - 1) / 2.0);
-	      sig = sqrt((double)(g1->size * (g1->size - 1) / 2.0) *
+	      av = prob * ((double)g1->size * (double)(g1->size - 1) / 2.0);
+	      sig = sqrt(((double)g1->size * (double)(g1->size - 1) / 2.0) *
 			 prob * (1.0 - prob));
 	      bij = ((double)g1->inlinks - av) / sig;
 	    }
 	    else {
-	      av = prob * (double)(g1->size * g2->size);
-	      sig = sqrt((double)(g1->size * g2->size) * prob * (1.0 - prob));
+	      av = prob * ((double)g1->size * (double)g2->size);
+	      sig = sqrt((double)g1->size * (double)g2->size * prob * (1.0 - prob));
 	      bij = ((double)NG2GLinks(g1, g2) - av) / sig;
 	    }
 	    break;
-- 
2.43.0


From fdd4c6014f1eac27cb3cb1176b25300209a47608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 81/92] fix: ModularityBipart overflowed when a team or an
 actor has more than 65535 links

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 0191505..2c0d083 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -900,7 +900,7 @@ ModularityBipart(struct binet *binet, struct group *part)
   /* Calculate sms=sum(m_s) and sms2=sum(m_s^2) */
   while ((p = p->next) != NULL) {
     sms += (double)NodeDegree(p);
-    sms2 += (double)(NodeDegree(p) * NodeDegree(p));
+    sms2 += (double)NodeDegree(p) * (double)NodeDegree(p);
   }
   s2ms = sms * sms;
 
@@ -914,7 +914,7 @@ ModularityBipart(struct binet *binet, struct group *part)
         t1 = NodeDegree(n1->ref);
         t2 = NodeDegree(n2->ref);
 
-	      bimod += (double)c12 / (sms2 - sms) - (double)(t1 * t2) / s2ms;
+	      bimod += (double)c12 / (sms2 - sms) - (double)t1 * (double)t2 / s2ms;
       }
     }
   }
-- 
2.43.0


From b1f9060bbd54670adf0a387a5d11f950da9d9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:06 +0000
Subject: [PATCH 82/92] fix: structure measures of networks with large hubs
 overflowed int

---
 src/graph.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index da687b2..b4f3d4f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1472,15 +1472,16 @@ double
 AverageSquaredDegree(struct node_gra *root)
 {
   struct node_gra *p=root;
-  int k, nnod=0, k2sum=0;
+  int k, nnod=0;
+  double k2sum=0;
 
   while ((p = p->next) != NULL) {
     nnod++;
     k = NodeDegree(p);
-    k2sum += k * k;
+    k2sum += (double)k * (double)k;
   }
 
-  return (double)k2sum / (double)nnod;
+  return k2sum / (double)nnod;
 
 }
 
@@ -1869,7 +1870,7 @@ ClusteringCoefficient(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       C_v = CalculateLinksBetweenNeig(list,root);
-      C_av += (double)C_v/(double)(k_v*(k_v-1));
+      C_av += (double)C_v/((double)k_v*(double)(k_v-1));
     }
     else {
       nodes--;
@@ -1894,7 +1895,7 @@ ClusteringCoefficient2(struct node_gra *root)
   int nodes,*size,res_size;
   struct node_bfs *list;
   struct node_gra *p = root;
-  int tri,ctr;  //#triangles and #connected triplets
+  double tri,ctr;  //#triangles and #connected triplets
   int k_v;
   double C;
 
@@ -1917,14 +1918,14 @@ ClusteringCoefficient2(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       tri += CalculateLinksBetweenNeig(list,root);
-      ctr += k_v*(k_v-1);
+      ctr += (double)k_v*(double)(k_v-1);
     }
     else
       nodes--;
     ClearList(list,size);
   }
 
-  C = (double)tri/(double)ctr;
+  C = tri/ctr;
 
   free(list);
   return C;
@@ -1991,7 +1992,7 @@ SquareClustering(struct node_gra *root)
       }
 
       if(k1>1){
-	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
+	C_av += (double)(C_v)/((double)k2*(double)k1*(double)(k1-1));
       }
       else
 	nodes--;
@@ -2436,7 +2437,7 @@ Assortativity(struct node_gra *net)
   struct node_gra *p;
   struct node_lis *li;
   int *deg;
-  int jk,jpk,j2pk2;
+  double jk,jpk,j2pk2;
   int M;
   double r;
 
@@ -2459,18 +2460,18 @@ Assortativity(struct node_gra *net)
   while ((p = p->next) != NULL) {
     li = p->neig;
     while ((li = li->next) != NULL) {
-      jk += deg[p->num] * deg[(li->ref)->num];
-      jpk += deg[p->num] + deg[(li->ref)->num];
-      j2pk2 += deg[p->num] * deg[p->num] + 
-	deg[(li->ref)->num] * deg[(li->ref)->num];
+      jk += (double)deg[p->num] * (double)deg[(li->ref)->num];
+      jpk += (double)deg[p->num] + (double)deg[(li->ref)->num];
+      j2pk2 += (double)deg[p->num] * (double)deg[p->num] +
+	(double)deg[(li->ref)->num] * (double)deg[(li->ref)->num];
     }
   }
 
-  r = ((double)jk / (double)M - ((double)jpk / (double)(2 * M)) *
-       ((double)jpk / (double)(2 * M))) / 
-    ((double)j2pk2 / (double)(2 * M) -
-     ((double)jpk / (double)(2 * M)) *
-     ((double)jpk / (double)(2 * M)));
+  r = (jk / (double)M - (jpk / (2. * (double)M)) *
+       (jpk / (2. * (double)M))) /
+    (j2pk2 / (2. * (double)M) -
+     (jpk / (2. * (double)M)) *
+     (jpk / (2. * (double)M)));
 
   // Free memory and return
   free_i_vec(deg);
-- 
2.43.0


From 25caa61fc84d155338b44786914f51bd8a35c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:06 +0000
Subject: [PATCH 83/92] fix: layouts of more than 46340 nodes chose the number
 of boxes from an overflowed product

---
 src/layout.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 5033e10..53a9408 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -615,7 +615,7 @@ MDGraphLayout(struct node_gra *net, double drag, double dt,
   if (nbox <= 0 && TotalNLinks(net, 1) == 0)
     nbox = 1;
   if (nbox <= 0) {
-    nbox = floor(sqrt((double)(nnod*nnod) / 
+    nbox = floor(sqrt((double)nnod*(double)nnod / 
 		      (10.*(double)TotalNLinks(net, 1))));
     if (nbox < 1)
       nbox = 1;
@@ -1092,7 +1092,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
   if (nbox <= 0 && TotalNLinks(net, 1) == 0)
     nbox = 1;
   if (nbox <= 0) {
-    nbox = floor(pow((double)(nnod*nnod) / 
+    nbox = floor(pow((double)nnod*(double)nnod / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
     if (nbox < 1)
       nbox = 1;
@@ -1266,7 +1266,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
   if (nbox <= 0 && TotalNLinks(net, 1) == 0)
     nbox = 1;
   if (nbox <= 0) {
-    nbox = floor(pow((double)(nnod*nnod) / 
+    nbox = floor(pow((double)nnod*(double)nnod / 
 		     (10.*(double)TotalNLinks(net, 1)), 1./3.));
     if (nbox < 1)
       nbox = 1;
-- 
2.43.0


From 680f3cba6d4fb388b589598c3a4f73fb31336fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:06 +0000
Subject: [PATCH 84/92] fix: legacy annealing of more than 46340 nodes computed
 its number of steps from an overflowed product

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 99b064b..de121ef 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2390,10 +2390,10 @@ SACommunityIdent(struct node_gra *net,
     Determine the number of iterations at each temperature
     -------------------------------------------------------------------
   */
-  if (fac * (double)(nnod * nnod) < 10)
+  if (fac * (double)nnod * (double)nnod < 10)
     cicle1 = 10;
   else
-    cicle1 = floor(fac * (double)(nnod * nnod));
+    cicle1 = floor(fac * (double)nnod * (double)nnod);
 
   if (fac * (double)nnod < 2)
     cicle2 = 2;
-- 
2.43.0


From 10aa15965b8aa59ea344703874459c07be356b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 85/92] fix: rating samplers with more than 46340 nodes on a
 side took the share of moves from an overflowed product

---
 src/recommend.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recommend.c b/src/recommend.c
index 3457698..255e79d 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -312,7 +312,8 @@ MCStep2State(int factor,
   int move_in;
 
   /* Ratio of moves in each of the sets */
-  set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
+  set_ratio = ((double)nnod1*(double)nnod1-1.) /
+    ((double)nnod1*(double)nnod1+(double)nnod2*(double)nnod2-2.);
 
   /* The moves */
   for (move=0; move<(nnod1+nnod2)*factor && (nnod1>1 || nnod2>1); move++) {
@@ -1162,7 +1163,8 @@ MCStepKState(int K,
   int k;
 
   /* Ratio of moves in each of the sets */
-  set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
+  set_ratio = ((double)nnod1*(double)nnod1-1.) /
+    ((double)nnod1*(double)nnod1+(double)nnod2*(double)nnod2-2.);
 
   /* The moves */
   for (move=0; move<(nnod1+nnod2)*factor && (nnod1>1 || nnod2>1); move++) {
-- 
2.43.0


From 69d95f7a0e2f014194a3994bf08019dbbcc4b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 86/92] fix: Gibbs steps whose weights overflow chose arbitrary
 groups (hubs, large networks)

---
 src/missing.c        | 22 ++++++++++++++++------
 src/multiblock.c     | 44 ++++++++++++++++++++++++++++++++------------
 src/only_deg.c       | 22 ++++++++++++++++------
 src/recommend.c      | 22 ++++++++++++++++------
 src/sparse_missing.c | 22 ++++++++++++++++------
 5 files changed, 96 insertions(+), 36 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index a96acf4..6fa9350 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2054,7 +2054,7 @@ GibbsLinkScoreStep(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dice, norm, dHempty, cum, dHmin, wempty;
   
   /* Preliminaries */
   dH = allocate_d_vec(nnod);
@@ -2070,7 +2070,7 @@ GibbsLinkScoreStep(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
+    dHmin = 0.0;
     /* Needed for the move to an empty group even if there is no other
        destination group in the shortlist */
     noldg = oldg->size;
@@ -2198,7 +2198,8 @@ GibbsLinkScoreStep(double *H,
 	dH[newgnum] = 0.0;
       }
 
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -2288,12 +2289,21 @@ GibbsLinkScoreStep(double *H,
 			      LogFactList, LogFactListSize);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (slgsize < nnod) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = exp(dHmin - dHempty) * (double)(nnod - slgsize);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<slgsize; slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
     
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -2304,7 +2314,7 @@ GibbsLinkScoreStep(double *H,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
diff --git a/src/multiblock.c b/src/multiblock.c
index 48af461..e546112 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1342,7 +1342,7 @@ GibbsLinkScoreStepMB(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dice, norm, dHempty, cum, dHmin, wempty;
   double Href;
   
   /* Preliminaries */
@@ -1360,7 +1360,7 @@ GibbsLinkScoreStepMB(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
+    dHmin = 0.0;
     /* Needed for the move to an empty group even if there is no other
        destination group in the shortlist */
     noldg = oldg->size;
@@ -1497,7 +1497,8 @@ GibbsLinkScoreStepMB(double *H,
 	dH[newgnum] = 0.0;
       }
 
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -1593,12 +1594,21 @@ GibbsLinkScoreStepMB(double *H,
       dHempty += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (slgsize < nnod) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = exp(dHmin - dHempty) * (double)(nnod - slgsize);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<slgsize; slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
     
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -1609,7 +1619,7 @@ GibbsLinkScoreStepMB(double *H,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
@@ -1984,7 +1994,7 @@ ORGibbsLinkScoreStepMB(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dice, norm, dHempty, cum, dHmin, wempty;
   double Href;
   
   /* Preliminaries */
@@ -2002,7 +2012,7 @@ ORGibbsLinkScoreStepMB(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
+    dHmin = 0.0;
     /* Needed for the move to an empty group even if there is no other
        destination group in the shortlist */
     noldg = oldg->size;
@@ -2139,7 +2149,8 @@ ORGibbsLinkScoreStepMB(double *H,
 	dH[newgnum] = 0.0;
       }
 
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -2235,12 +2246,21 @@ ORGibbsLinkScoreStepMB(double *H,
       dHempty += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (slgsize < nnod) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = exp(dHmin - dHempty) * (double)(nnod - slgsize);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<slgsize; slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
     
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -2251,7 +2271,7 @@ ORGibbsLinkScoreStepMB(double *H,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
diff --git a/src/only_deg.c b/src/only_deg.c
index 33786b2..0f83f64 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -702,7 +702,7 @@ GibbsLinkScoreStepMB_OD(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dice, norm, dHempty, cum, dHmin, wempty;
   double Href;
   
   /* Preliminaries */
@@ -720,7 +720,7 @@ GibbsLinkScoreStepMB_OD(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
+    dHmin = 0.0;
     /* Needed for the move to an empty group even if there is no other
        destination group in the shortlist */
     noldg = oldg->size;
@@ -857,7 +857,8 @@ GibbsLinkScoreStepMB_OD(double *H,
 	dH[newgnum] = 0.0;
       }
 
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -953,12 +954,21 @@ GibbsLinkScoreStepMB_OD(double *H,
       dHempty += LogDegeneracy_OD(effectng) - LogDegeneracy_OD(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (slgsize < nnod) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = exp(dHmin - dHempty) * (double)(nnod - slgsize);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<slgsize; slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
     
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -969,7 +979,7 @@ GibbsLinkScoreStepMB_OD(double *H,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
diff --git a/src/recommend.c b/src/recommend.c
index 255e79d..8e2b996 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -1947,7 +1947,7 @@ GibbsStepKState(int K,
   int k;
   double dHoo, dHon, dHno, dHnn, dHsam, dHempty;
   int target;
-  double cum=0.0, norm=0.0, dice=0.0;
+  double cum=0.0, norm=0.0, dice=0.0, dHmin, wempty;
   /* Shortlist of groups that we consider as possible
      destinations. Groups not in this list are empty for sure, so we
      count all of them together in 1 single step. Note that, during a
@@ -2026,7 +2026,7 @@ GibbsStepKState(int K,
     }
 
     /** FIXED CONTRIBUTIONS FOR THIS NODE **/
-    norm = 0.0;
+    dHmin = 0.0;
     dHoo = 0.0;
     dHno = 0.0;
     for (slgn=0; slgn<(*slgothersize); slgn++) {
@@ -2096,7 +2096,8 @@ GibbsStepKState(int K,
 	dH[newgnum] = 0.0;
       else
 	dH[newgnum] = -dHoo + dHno - dHon + dHnn + dHsam;
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** DH FOR AN EMPTY DESTINATION GROUP FOR THIS NODE **/
@@ -2125,11 +2126,20 @@ GibbsStepKState(int K,
       dHsam = 0.0;
     /* total energy change for this move and normalization */
     dHempty = -dHoo + dHno - dHon + dHnn + dHsam;
-    norm += (ngroupnode - (*slgsize)) * exp(-dHempty);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (*slgsize < ngroupnode) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = (ngroupnode - (*slgsize)) * exp(dHmin - dHempty);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<(*slgsize); slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
 
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
-    if (dice > (norm - (ngroupnode - (*slgsize)) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* Select an empty group */
       newg = GetEmptyGroup(grootnode);
       newgnum = newg->label;
@@ -2147,7 +2157,7 @@ GibbsStepKState(int K,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < *slgsize);
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index ef9c77c..69b447e 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -105,7 +105,7 @@ SparseGibbsLinkScoreStep(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dice, norm, dHempty, cum, dHmin, wempty;
  
   /* Preliminaries */
   dH = allocate_d_vec(nnod);
@@ -121,7 +121,7 @@ SparseGibbsLinkScoreStep(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
+    dHmin = 0.0;
     /* Needed for the move to an empty group even if there is no other
        destination group in the shortlist */
     noldg = oldg->size;
@@ -223,7 +223,8 @@ SparseGibbsLinkScoreStep(double *H,
 	dH[newgnum] = 0.0;
       }
 
-      norm += exp(-dH[newgnum]);
+      if (dH[newgnum] < dHmin)
+	dHmin = dH[newgnum];
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -291,12 +292,21 @@ SparseGibbsLinkScoreStep(double *H,
 			      LogFactList, LogFactListSize);
     }
     
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
+    /* Weights relative to the largest one, so that they do not overflow */
+    wempty = 0.0;
+    if (slgsize < nnod) {
+      if (dHempty < dHmin)
+	dHmin = dHempty;
+      wempty = exp(dHmin - dHempty) * (double)(nnod - slgsize);
+    }
+    norm = wempty;
+    for (slgn=0; slgn<slgsize; slgn++)
+      norm += exp(dHmin - dH[slg[slgn]]);
     
     /** CHOOSE THE MOVE **/
     dice = norm * gsl_rng_uniform(gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (dice > (norm - wempty)) {
       /* fprintf(stderr, "Move not in shortlist\n"); */
       /* Select an empty group */
       newg = GetEmptyGroup(part);
@@ -309,7 +319,7 @@ SparseGibbsLinkScoreStep(double *H,
       target = 0;
       cum = 0.0;
       do {
-	cum += exp(-dH[slg[target++]]);
+	cum += exp(dHmin - dH[slg[target++]]);
       } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
-- 
2.43.0


From ed69a41ce0543ef3aec3b6c59e8de7af14fce0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 87/92] fix: node roles of partitions with more nodes times
 modules than an unsigned int

---
 src/partition.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index 1bfa85d..c32f456 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -159,21 +159,23 @@ Compute the modularity roles metrics of all nodes.
 void
 PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, double *participation){
   unsigned int N,M,i,j, mod;
-  double *strengthToModule,*mean,*std;
+  double *strengthInModule,*strengthToModule,*mean,*std;
 
   // Number of nodes and modules.
   N = adj->N;
   M = part->M;
 
-  ////Compute all strengths from a node to a module.
-  strengthToModule = (double*) calloc(N*M,sizeof(double));
-  if (strengthToModule==NULL)
+  ////Compute the strength from each node to its own module (a table of
+  ////all nodes times all modules is too large for large networks).
+  strengthInModule = (double*) calloc(N,sizeof(double));
+  strengthToModule = (double*) calloc(M,sizeof(double));
+  if (strengthInModule==NULL || strengthToModule==NULL)
 	  perror("Error while computing roles metrics");
 
   for (i=0; i<N; i++){
 	for (j=adj->idx[i]; j<adj->idx[i+1]; j++){
-	  mod = part->nodes[adj->neighbors[j]]->module;
-	  strengthToModule[i+N*mod] += adj->strength[j];
+	  if (part->nodes[adj->neighbors[j]]->module == part->nodes[i]->module)
+		strengthInModule[i] += adj->strength[j];
 	}
   }
 
@@ -188,14 +190,14 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   // numerical stability.
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	mean[mod] += strengthToModule[i+N*mod];
+	mean[mod] += strengthInModule[i];
   }
   for (j=0; j<M; j++)
 	mean[j] /= part->modules[j]->size;
 
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	std[mod] += (strengthToModule[i+N*mod]-mean[mod]) * (strengthToModule[i+N*mod]-mean[mod]);
+	std[mod] += (strengthInModule[i]-mean[mod]) * (strengthInModule[i]-mean[mod]);
   }
   for (j=0; j<M; j++){
 	std[j] = std[j]/part->modules[j]->size;
@@ -209,7 +211,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
 	if (std[mod])
-	  connectivity[i] = (strengthToModule[i+N*mod] - mean[mod]) / std[mod];
+	  connectivity[i] = (strengthInModule[i] - mean[mod]) / std[mod];
 	else
 	  connectivity[i] = 0;
   }
@@ -227,9 +229,14 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //-epsilon.
 	  double strength = 0;
 	  participation[i] = 0;
-	  for (j=0;j<M;j++){
-		strength += strengthToModule[i+N*j];
-		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
+	  for (j=adj->idx[i]; j<adj->idx[i+1]; j++)
+		strengthToModule[part->nodes[adj->neighbors[j]]->module] += adj->strength[j];
+	  for (j=adj->idx[i]; j<adj->idx[i+1]; j++){
+		// Each module counts once.
+		mod = part->nodes[adj->neighbors[j]]->module;
+		strength += strengthToModule[mod];
+		participation[i] += strengthToModule[mod]*strengthToModule[mod];
+		strengthToModule[mod] = 0;
 	  }
 	  participation[i] = 1.0 - participation[i]/(strength*strength);
 	}
@@ -238,6 +245,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   //free memory.
   free(mean);
   free(std);
+  free(strengthInModule);
   free(strengthToModule);
 }
 
-- 
2.43.0


From 1cebd5438a6fd0d87a7f331c49b5000636566a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 88/92] fix: average inverse distance overflowed on paths of
 more than 46340 nodes

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index b4f3d4f..c3ad24f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1791,7 +1791,7 @@ AverageInverseDistance(struct node_gra *root)
   av_dis = norm = 0.0;
   for(i = 0; i<nodes; i++){
     if(histogram[i] !=  0.0){
-      av_dis +=  histogram[i]/(double)( i * (nodes-1) );
+      av_dis +=  histogram[i]/((double)i * (double)(nodes-1));
     }
   }
 
-- 
2.43.0


From 5431f9ce2cd5748bacc20d0be9c5db0a962406c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 89/92] fix: degeneracy-only Gibbs sampler starts from its own
 model's energy

---
 src/only_deg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index 0f83f64..ca503bc 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1051,7 +1051,7 @@ GibbsThermalizeLSMCMB_OD(double *H,
 	/*PartitionHMB(part, linC, HarmonicList);*/ /* Number of groups */
 	break;
       case 'd':
-	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB(part, linC, HarmonicList),
+	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB_OD(part, linC, HarmonicList),
 		NNonEmptyGroups(part));
 	break;
       default:
@@ -1177,7 +1177,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   }
 
   /* Initial energy */
-  H = PartitionHMB(part, linC, HarmonicList);
+  H = PartitionHMB_OD(part, linC, HarmonicList);
 
   /*
     GET READY FOR THE SAMPLING
@@ -1223,7 +1223,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
       fprintf(stderr, "%d %lf\n", iter, H);
       break;
     case 'd':
-      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB(part, linC, HarmonicList),
+      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB_OD(part, linC, HarmonicList),
 	      NNonEmptyGroups(part));
       /* FPrintPartition(stderr, part, 0); */
       break;
-- 
2.43.0


From 4299889f736cc916b9f439413632b3e06ebc21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 90/92] fix: labels starting with # in partition files are
 labels, not comments

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 1eb6ee3..23b077c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -286,7 +286,8 @@ AssignNodesToModulesFromFile(FILE *inF,
 
   // Each line is a module: its labels, separated by tabulations.
   while (getline(&line, &bufsiz, inF) != -1){
-	if (line[0] == '#')
+	// Comments start with "# "; "#" may also be the start of a label.
+	if (line[0] == '#' && line[1] == ' ')
 	  continue;
 	for (label=strtok(line,"\t\r\n"); label!=NULL; label=strtok(NULL,"\t\r\n")){
 	  e.key = label;
-- 
2.43.0


From 928e239ab1e82e83bcd7807ed91689648f5c1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 91/92] fix: random merging of components never takes the
 header as a group

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index de121ef..19275a7 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2179,9 +2179,9 @@ SAGroupSplit(struct group *targ,
     /* Merge groups randomly until only two are left */
     while (ngroups > 2) {
       /* Select two random groups */
-      g1 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+      g1 = 1 + floor(gsl_rng_uniform(gen) * (double)ngroups);
       do {
-	g2 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+	g2 = 1 + floor(gsl_rng_uniform(gen) * (double)ngroups);
       } while (g2 == g1);
       
       glist[0] = split;
-- 
2.43.0


From e0c4c900f7caf8fbe296c2041e9246afa406e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 92/92] fix: team colour stays within the modules when the
 random number is 0

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 2c0d083..a791482 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -244,7 +244,7 @@ BuildModularBipartiteNetwork(int *modSizes,
       dice = gsl_rng_uniform(gen);
       cum = 0.0;
       teamcol = -1;
-      while (cum < dice) {
+      while (cum <= dice && teamcol < nmod - 1) {
 	teamcol++;
 	cum += col_prob[teamcol];
       }
-- 
2.43.0

